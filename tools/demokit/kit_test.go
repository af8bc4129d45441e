// Package demo shows one behaviour of the client against a repository made
// up in memory. All files go to the test's own temporary directory.
package demo

import (
	"crypto"
	"crypto/ed25519"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/config"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
	"github.com/sigstore/sigstore/pkg/signature"
)

const base = "https://repo.example"

var future = time.Now().UTC().Add(24 * time.Hour).Truncate(time.Second)
var past = time.Now().UTC().Add(-24 * time.Hour).Truncate(time.Second)

// pair is a key and its signer.
type pair struct {
	key    *metadata.Key
	signer signature.Signer
}

func newPair(t testing.TB) pair {
	_, priv, err := ed25519.GenerateKey(nil)
	must(t, err)
	s, err := signature.LoadSigner(priv, crypto.Hash(0))
	must(t, err)
	k, err := metadata.KeyFromPublicKey(priv.Public())
	must(t, err)
	return pair{k, s}
}

func must(t testing.TB, err error) {
	t.Helper()
	if err != nil {
		t.Fatalf("setup: %v", err)
	}
}

// repo is a repository served from memory.
type repo struct {
	t       testing.TB
	files   map[string][]byte // by address below base
	reqs    []string          // addresses asked for
	lens    map[string]int64  // limits they were asked with
	status  int               // status of what is missing
	dirs    string
	root    *metadata.Metadata[metadata.RootType]
	ts      *metadata.Metadata[metadata.TimestampType]
	snap    *metadata.Metadata[metadata.SnapshotType]
	tgts    *metadata.Metadata[metadata.TargetsType]
	del     map[string]*metadata.Metadata[metadata.TargetsType]
	keys    map[string][]pair
	initial []byte
}

func newRepo(t testing.TB, consistent bool) *repo {
	r := &repo{t: t, files: map[string][]byte{}, lens: map[string]int64{}, status: 404, dirs: t.TempDir(), del: map[string]*metadata.Metadata[metadata.TargetsType]{}, keys: map[string][]pair{}}
	r.root = metadata.Root(future)
	r.root.Signed.ConsistentSnapshot = consistent
	r.ts, r.snap, r.tgts = metadata.Timestamp(future), metadata.Snapshot(future), metadata.Targets(future)
	for _, n := range []string{"root", "timestamp", "snapshot", "targets"} {
		p := newPair(t)
		r.keys[n] = []pair{p}
		must(t, r.root.Signed.AddKey(p.key, n))
	}
	return r
}

func (r *repo) DownloadFile(u string, maxLength int64, _ time.Duration) ([]byte, error) {
	p := strings.TrimPrefix(u, base+"/")
	r.reqs = append(r.reqs, p)
	r.lens[p] = maxLength
	b, ok := r.files[p]
	if !ok {
		return nil, metadata.ErrDownloadHTTP{StatusCode: r.status, URL: u}
	}
	if int64(len(b)) > maxLength {
		return nil, metadata.ErrDownloadLengthMismatch{Msg: "too long"}
	}
	return b, nil
}

func sign[T metadata.Roles](r *repo, m *metadata.Metadata[T], role string) []byte {
	m.ClearSignatures()
	for _, p := range r.keys[role] {
		_, err := m.Sign(p.signer)
		must(r.t, err)
	}
	b, err := m.ToBytes(false)
	must(r.t, err)
	return b
}

// delegate adds a role delegated by the top-level targets.
func (r *repo) delegate(name string, terminating bool, paths ...string) *metadata.Metadata[metadata.TargetsType] {
	return r.delegateFrom(r.tgts, name, terminating, paths...)
}

func (r *repo) delegateFrom(from *metadata.Metadata[metadata.TargetsType], name string, terminating bool, paths ...string) *metadata.Metadata[metadata.TargetsType] {
	p := newPair(r.t)
	if from.Signed.Delegations == nil {
		from.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{}, Roles: []metadata.DelegatedRole{}}
	}
	from.Signed.Delegations.Roles = append(from.Signed.Delegations.Roles, metadata.DelegatedRole{Name: name, KeyIDs: []string{}, Threshold: 1, Terminating: terminating, Paths: paths})
	must(r.t, from.Signed.AddKey(p.key, name))
	r.keys[name] = []pair{p}
	if r.del[name] == nil {
		r.del[name] = metadata.Targets(future)
		r.snap.Signed.Meta[name+".json"] = metadata.MetaFile(1)
	}
	return r.del[name]
}

// target lists a target and serves it.
func (r *repo) target(in *metadata.Metadata[metadata.TargetsType], path, content string) *metadata.TargetFiles {
	tf, err := metadata.TargetFile().FromBytes(path, []byte(content))
	must(r.t, err)
	in.Signed.Targets[path] = tf
	sum := sha256.Sum256([]byte(content))
	dir, last := "", path
	if i := strings.LastIndex(path, "/"); i >= 0 {
		dir, last = path[:i+1], path[i+1:]
	}
	r.files["targets/"+path] = []byte(content)
	r.files["targets/"+dir+hex.EncodeToString(sum[:])+"."+last] = []byte(content)
	return tf
}

func (r *repo) put(name string, version int64, consistent bool, b []byte) {
	n := url.QueryEscape(name) + ".json"
	if consistent {
		n = strconv.FormatInt(version, 10) + "." + n
	}
	r.files[n] = b
}

// publish signs and serves everything as it is now.
func (r *repo) publish() {
	rb := sign(r, r.root, "root")
	if r.initial == nil {
		r.initial = rb
	}
	r.put("root", r.root.Signed.Version, true, rb)
	c := r.root.Signed.ConsistentSnapshot
	var names []string
	for n := range r.del {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		m := r.del[n]
		r.put(n, m.Signed.Version, c, sign(r, m, n))
		if r.snap.Signed.Meta[n+".json"] != nil {
			r.snap.Signed.Meta[n+".json"].Version = m.Signed.Version
		}
	}
	r.put("targets", r.tgts.Signed.Version, c, sign(r, r.tgts, "targets"))
	r.snap.Signed.Meta["targets.json"].Version = r.tgts.Signed.Version
	r.put("snapshot", r.snap.Signed.Version, c, sign(r, r.snap, "snapshot"))
	r.ts.Signed.Meta["snapshot.json"].Version = r.snap.Signed.Version
	r.put("timestamp", 0, false, sign(r, r.ts, "timestamp"))
}

// bump publishes new versions of everything but the root.
func (r *repo) bump() {
	r.tgts.Signed.Version++
	r.snap.Signed.Version++
	r.ts.Signed.Version++
	r.publish()
}

func (r *repo) metaDir() string   { return filepath.Join(r.dirs, "metadata") }
func (r *repo) targetDir() string { return filepath.Join(r.dirs, "targets") }

func (r *repo) config() *config.UpdaterConfig {
	cfg, err := config.New(base, r.initial)
	must(r.t, err)
	cfg.Fetcher = r
	cfg.LocalMetadataDir = r.metaDir()
	cfg.LocalTargetsDir = r.targetDir()
	return cfg
}

func (r *repo) client(change ...func(*config.UpdaterConfig)) (*updater.Updater, error) {
	cfg := r.config()
	for _, f := range change {
		f(cfg)
	}
	return updater.New(cfg)
}

func (r *repo) mustClient(change ...func(*config.UpdaterConfig)) *updater.Updater {
	u, err := r.client(change...)
	must(r.t, err)
	return u
}

func (r *repo) cached(role string) []byte {
	b, err := os.ReadFile(filepath.Join(r.metaDir(), url.QueryEscape(role)+".json"))
	if errors.Is(err, os.ErrNotExist) {
		return nil
	}
	must(r.t, err)
	return b
}

func (r *repo) asked(what string) bool {
	for _, q := range r.reqs {
		if q == what {
			return true
		}
	}
	return false
}
