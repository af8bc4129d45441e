package main

import (
	"go/types"
)

// consensus looks at how MultiRepoClient.GetTargetInfo groups the answers of
// the repositories of a mapping and decides between them.
type consensus struct {
	*Multi
	path, mapping, clients *Term
	memo                   map[*Term]string
}

// groupVar is a list of groups: descriptions with the repositories that gave them.
type groupVar struct {
	list        *Term
	acc         *Acc
	info, repos string // the names of the two fields
}

func (c *Ctx) consensus() *consensus {
	q := &consensus{memo: map[*Term]string{}}
	q.Multi = c.multi("GetTargetInfo", nil)
	q.path = q.arg(1)
	return q
}

func (q *consensus) at(st *State) {
	q.mapping = get(st, q.cfg, "RepoMap.Mapping")
	q.clients = get(st, q.client, "TUFClients")
}

func (q *consensus) elem(st *State, s, i *Term) *Term {
	et := elemType(s.typ)
	return st.load(mkIaddr(s, i, et), et)
}

// groupOf finds the group lists among the variables of the loops on the way to st.
func (q *consensus) groupLists(st *State) []*groupVar {
	var out []*groupVar
	seen := map[*Term]bool{}
	add := func(t *Term) {
		a := q.e.accs[t]
		if a == nil || a.v.symC != t || seen[t] || t.typ == nil {
			return
		}
		g := q.groupType(t)
		if g == nil {
			return
		}
		seen[t] = true
		g.acc = a
		out = append(out, g)
	}
	for _, ev := range st.events() {
		if ev.loop == nil {
			continue
		}
		for _, v := range ev.loop.vars {
			add(v.symC)
		}
	}
	return out
}

// groupType recognises a list of groups by its element type.
func (q *consensus) groupType(t *Term) *groupVar {
	sl, ok := under(t.typ).(*types.Slice)
	if !ok {
		return nil
	}
	et := sl.Elem()
	if p, ok := under(et).(*types.Pointer); ok {
		et = p.Elem()
	}
	s, ok := under(et).(*types.Struct)
	if !ok {
		return nil
	}
	g := &groupVar{list: t}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		ft := f.Type()
		if p, ok := under(ft).(*types.Pointer); ok {
			ft = p.Elem()
		}
		if nt, ok := ft.(*types.Named); ok && nt.Obj().Name() == "TargetFiles" {
			g.info = f.Name()
		}
		if l, ok := under(ft).(*types.Slice); ok && types.Identical(l.Elem(), types.Typ[types.String]) {
			g.repos = f.Name()
		}
	}
	if g.info == "" || g.repos == "" {
		return nil
	}
	return g
}

// member reads a field of element i of a group list.
func (g *groupVar) field(st *State, list, i *Term, name string) *Term {
	et := elemType(list.typ)
	at := mkIaddr(list, i, et)
	if _, ok := under(et).(*types.Pointer); ok {
		at = st.load(at, et)
	}
	return field1(st, at, name)
}

// index finds which element of the list a field was read from.
func (g *groupVar) index(t *Term, list *Term, name string) *Term {
	if t.op != "load" {
		return nil
	}
	return g.indexAt(t.args[0], list, name)
}

func (g *groupVar) indexAt(a *Term, list *Term, name string) *Term {
	if a.op != "faddr" || a.fieldName() != name {
		return nil
	}
	b := a.args[0]
	if b.op == "load" {
		b = b.args[0]
	}
	if b.op == "iaddr" && b.args[0] == list {
		return b.args[1]
	}
	return nil
}

// clientOf decides that t is the client kept for the repository.
func (q *consensus) clientOf(t, repo *Term) bool {
	return t.op == "lookup" && t.args[0].contains(q.clients) && t.args[1] == repo || t.op == "lookup" && t.args[0] == q.clients && t.args[1] == repo
}

// equalTo says what is known about the equality of a description and that of a group.
func (q *consensus) equalTo(st *State, a, b *Term) int {
	for _, ev := range st.events() {
		if ev.kind != "call" || ev.name != kTFEqual || len(ev.res) == 0 {
			continue
		}
		x, y := q.described(st, ev.args[0]), q.described(st, ev.args[1])
		if x == a && y == b || x == b && y == a {
			if d := st.decide(ev.res[0]); d != 0 {
				return d
			}
		}
	}
	return 0
}

// described is the pointer to the description that is passed, itself or as a copy.
func (q *consensus) described(st *State, t *Term) *Term {
	if t.typ != nil {
		if _, ok := under(t.typ).(*types.Pointer); ok {
			return t
		}
	}
	if t.op == "load" {
		return t.args[0]
	}
	if t.op == "struct" && len(t.args) > 0 {
		x := t.args[0]
		for x != nil && x.op == "load" && x.args[0].op == "faddr" {
			b := x.args[0].args[0]
			if isLoadOf(t, b) {
				return b
			}
			if b.op != "faddr" {
				// an embedded structure
				return b
			}
			x = mk("load", "", nil, b)
		}
	}
	return t
}

// answer finds the successful lookup of the path at the given repository.
func (q *consensus) answer(st *State, evs []*Event, repo *Term) *Event {
	for _, ev := range evs {
		if ev.kind == "call" && ev.name == kUpGTI && okAt(st, ev) == 1 && q.clientOf(ev.args[0], repo) && ev.args[1] == q.path {
			return ev
		}
	}
	return nil
}

// unanswered decides that the repository was asked and gave no description,
// or that there is no client for it.
func (q *consensus) unanswered(st *State, evs []*Event, repo *Term) bool {
	for _, ev := range evs {
		if ev.kind == "call" && ev.name == kUpGTI && okAt(st, ev) == -1 && q.clientOf(ev.args[0], repo) && ev.args[1] == q.path {
			return true
		}
	}
	for t, v := range st.bools {
		switch {
		case t.op == "lookupok" && !v && t.args[1] == repo && q.clientOf(mk("lookup", "", nil, t.args[0], t.args[1]), repo):
			return true
		case t.op == "eq" && v && (t.args[0].isNil() && q.clientOf(t.args[1], repo) || t.args[1].isNil() && q.clientOf(t.args[0], repo)):
			return true
		}
	}
	return false
}

// sound returns "" if the list g holds, when st is reached, the answers of all
// repositories of the mapping m, each once and in a group with an equal description.
func (q *consensus) sound(st *State, g *groupVar, m *Term) string {
	q.at(st)
	repos := get(st, m, "Repositories")
	if loopOnPath(st, g.acc.sum) == nil || !exhausted(st, g.acc.sum, repos) {
		return "not every repository of the mapping is asked before the decision"
	}
	if g.acc.v.init == nil || !emptyColl(g.acc.v.init) {
		return "the groups do not start empty for the mapping"
	}
	if w, ok := q.memo[mk("sound", "", nil, g.list, m)]; ok {
		return w
	}
	w := ""
	for _, b := range g.acc.sum.allBacks {
		if w = q.step(b, g, q.elem(b.st, repos, g.acc.sum.itP)); w != "" {
			break
		}
	}
	q.memo[mk("sound", "", nil, g.list, m)] = w
	return w
}

// step judges what one iteration, for one repository, does to the groups.
func (q *consensus) step(b *Back, g *groupVar, repo *Term) string {
	prev, nv := g.acc.v.symP, b.vals[g.acc.v.id]
	ans := q.answer(b.st, b.evs, repo)
	var info *Term
	if ans != nil {
		info = ans.res[0]
	}
	if info == nil && !q.unanswered(b.st, b.evs, repo) {
		return "a repository may be passed over without being asked"
	}
	w := ""
	walk(b.st, b.evs, func(st *State, ev *Event, _ []*LoopSum) {
		if ev.kind == "mapset" || ev.kind == "mapdel" {
			w = "a map is changed while the repositories are asked"
		}
		if ev.kind != "store" || w != "" || isFreshOp(ev.args[0].root()) && g.indexAt(ev.args[0], prev, ev.args[0].fieldName()) == nil {
			return
		}
		i := g.indexAt(ev.args[0], prev, g.repos)
		switch {
		case i == nil:
			w = "something other than a group's list of repositories is changed"
		case info == nil:
			w = "a repository that gave no description is added to a group"
		default:
			w = q.joins(st, ev, g, prev, i, info, repo)
		}
	})
	if w != "" {
		return w
	}
	if nv == prev {
		if info == nil {
			return ""
		}
		if !q.recorded(b.st, g, prev, info, repo) {
			return "the answer of a repository may be dropped"
		}
		return ""
	}
	if nv == nil || nv.op != "append" || nv.args[0] != prev || nv.args[1].op != "slicelit" || len(nv.args[1].args) != 1 {
		return "the groups are changed otherwise than by adding one"
	}
	if info == nil {
		return "a group is added without a description given by the repository"
	}
	x := nv.args[1].args[0]
	if _, ptr := under(x.typ).(*types.Pointer); ptr && !isFreshOp(x.root()) {
		return "the group that is added is not a new one"
	}
	gi, gr := q.partOf(b.st, x, g.info), q.partOf(b.st, x, g.repos)
	if gi != info {
		return "the group that is added has another description than the one the repository gave"
	}
	if gr == nil || gr.op != "slicelit" || len(gr.args) != 1 || gr.args[0] != repo {
		return "the group that is added lists other repositories than the one that was asked"
	}
	if ok, why := q.forallSlice(b.st, prev, func(bs *State, i *Term) string {
		if q.equalTo(bs, g.field(bs, prev, i, g.info), info) == -1 {
			return ""
		}
		return "it may be equal"
	}); !ok {
		return "a second group may be made for a description that has one: " + why
	}
	return ""
}

func (q *consensus) partOf(st *State, x *Term, name string) *Term {
	if x.typ == nil {
		return nil
	}
	if _, ok := under(x.typ).(*types.Pointer); ok {
		return field1(st, x, name)
	}
	return structFieldNamed(x, name)
}

// joins returns "" if the store adds the repository, new to the group, to a
// group with an equal description.
func (q *consensus) joins(st *State, ev *Event, g *groupVar, list, i, info, repo *Term) string {
	v := ev.args[1]
	if v.op != "append" || v.args[1].op != "slicelit" || len(v.args[1].args) != 1 || v.args[1].args[0] != repo {
		return "a group's list of repositories is changed otherwise than by adding the repository that was asked"
	}
	if g.index(v.args[0], list, g.repos) != i {
		return "a repository is added to the list of another group"
	}
	if q.equalTo(st, g.field(st, list, i, g.info), info) != 1 {
		return "a repository is added to a group whose description may differ from the one it gave"
	}
	if q.member(st, v.args[0], repo) != -1 {
		return "a repository may be listed twice in a group"
	}
	return ""
}

// recorded decides that the repository was added to, or is in, a group with an equal description.
func (q *consensus) recorded(st *State, g *groupVar, list, info, repo *Term) bool {
	in := func(bs *State) bool {
		evs := bs.events()
		for _, ev := range evs {
			if ev.kind == "store" && g.indexAt(ev.args[0], list, g.repos) != nil {
				return true // judged by joins
			}
			if ev.kind != "call" || ev.name != kTFEqual || len(ev.res) == 0 || bs.decide(ev.res[0]) != 1 {
				continue
			}
			for k := 0; k < 2; k++ {
				x, y := q.described(bs, ev.args[k]), q.described(bs, ev.args[1-k])
				if i := g.index(x, list, g.info); i != nil && y == info {
					for t, pol := range bs.bools {
						if pol && t.op == "contains" && t.args[1] == repo && g.index(t.args[0], list, g.repos) == i {
							return true
						}
					}
					if q.member(bs, g.field(bs, list, i, g.repos), repo) == 1 {
						return true
					}
				}
			}
		}
		return false
	}
	return in(st) || q.someIteration(st, in)
}

// chosen lists the pairs of a list of groups and another made of just those of
// its groups that have as many repositories as the mapping demands.
func (q *consensus) chosen(st *State, m *Term) [][2]*groupVar {
	var out [][2]*groupVar
	lists := q.groupLists(st)
	for _, f := range lists {
		for _, g := range lists {
			sum, v := f.acc.sum, f.acc.v
			if f == g || sum == g.acc.sum || loopOnPath(st, sum) == nil || !exhausted(st, sum, g.list) || v.init == nil || !emptyColl(v.init) {
				continue
			}
			ok := true
			for _, b := range sum.allBacks {
				nv := b.vals[v.id]
				walk(b.st, b.evs, func(_ *State, ev *Event, _ []*LoopSum) {
					ok = ok && (ev.kind != "store" && ev.kind != "mapset" && ev.kind != "mapdel" || isFreshOp(ev.args[0].root()))
				})
				switch {
				case nv == nil:
					ok = false
				case nv == v.symP:
					ok = ok && q.short(b.st, g, m, sum.itP, true)
				case nv.op == "append" && nv.args[0] == v.symP && nv.args[1].op == "slicelit" && len(nv.args[1].args) == 1 && q.short(b.st, g, m, sum.itP, false):
					x := nv.args[1].args[0]
					ok = ok && q.partOf(b.st, x, f.info) == g.field(b.st, g.list, sum.itP, g.info) && q.partOf(b.st, x, f.repos) == g.field(b.st, g.list, sum.itP, g.repos)
				default:
					ok = false
				}
			}
			if ok {
				out = append(out, [2]*groupVar{f, g})
			}
		}
	}
	return out
}

// short decides that element i of the groups has fewer repositories than the mapping demands.
func (q *consensus) short(st *State, g *groupVar, m, i *Term, truth bool) bool {
	lt := ltT(mkLen(g.field(st, g.list, i, g.repos)), get(st, m, "Threshold"))
	if truth {
		return st.holds(lt)
	}
	return st.fails(lt)
}

// mappings lists the mappings the state knows something about.
func (q *consensus) mappings(st *State) []*Term {
	q.at(st)
	return elemsOf(st, q.mapping)
}

// matched says what is known about a pattern of the mapping matching the path.
func (q *consensus) matchTerm(p *Term) *Term {
	return mk("app", "path/filepath.Match:0", types.Typ[types.Bool], p, q.path)
}

func (q *consensus) matchErr(p *Term) *Term {
	return mk("app", "path/filepath.Match:1", types.Universe.Lookup("error").Type(), p, q.path)
}

// matches decides that some pattern of the mapping matches the path.
func (q *consensus) matches(st *State, m *Term) bool {
	return q.someElem(st, get(st, m, "Paths"), func(bs *State, p *Term) bool { return bs.holds(q.matchTerm(p)) })
}

// none returns "" if the repositories of the mapping were all asked and no
// description reached the threshold.
func (q *consensus) none(st *State, m *Term) string {
	why := "the repositories of the mapping are not asked"
	for _, p := range q.chosen(st, m) {
		if why = q.sound(st, p[1], m); why != "" {
			continue
		}
		if st.holds(eqT(mkLen(p[0].list), mkInt(0))) {
			return ""
		}
		why = "a description may have reached the threshold"
	}
	for _, g := range q.groupLists(st) {
		if w := q.sound(st, g, m); w != "" {
			why = w
			continue
		}
		if emptyColl(g.list) {
			return ""
		}
		ok, w := q.forallSlice(st, g.list, func(bs *State, i *Term) string {
			if q.short(bs, g, m, i, true) {
				return ""
			}
			return "a description may have reached the threshold"
		})
		if ok {
			return ""
		}
		why = w
	}
	return why
}

// passedOver returns "" if the search may go on after the mapping: no pattern
// matches, or it is not terminating and no description reached the threshold.
func (q *consensus) passedOver(st *State, m *Term) string {
	fruitless := func(bs *State) string {
		if !bs.fails(get(bs, m, "Terminating")) {
			return "the mapping may be terminating"
		}
		return q.none(bs, m)
	}
	why := fruitless(st)
	if why == "" {
		return ""
	}
	ok, w := q.forallSlice(st, get(st, m, "Paths"), func(bs *State, i *Term) string {
		p := q.elem(bs, get(bs, m, "Paths"), i)
		if bs.fails(q.matchTerm(p)) && bs.holds(isNilT(q.matchErr(p))) {
			return ""
		}
		if w := fruitless(bs); w != "" {
			return "a pattern may match, and " + w
		}
		return ""
	})
	if ok {
		return ""
	}
	return w + "; " + why
}

// infoless decides that the state cannot be reached, as it supposes that a
// group has no description: each is an answer of a repository, which never is
// nil.
func (q *consensus) infoless(st *State, m *Term) bool {
	for t, v := range st.bools {
		if !v || t.op != "eq" {
			continue
		}
		for i := 0; i < 2; i++ {
			if !t.args[1-i].isNil() || t.args[i].op != "load" {
				continue
			}
			for _, g := range q.groupLists(st) {
				if g.index(t.args[i], g.list, g.info) != nil && q.sound(st, g, m) == "" {
					return true
				}
			}
		}
	}
	return false
}

// before returns "" if every mapping before the current one was passed over
// rightly, and the loop over the mappings.
func (q *consensus) before(st *State) (string, *LoopSum) {
	q.at(st)
	why := "no loop over the mappings was found"
	for _, ev := range st.events() {
		if ev.kind != "loop" || ev.loop == nil {
			continue
		}
		used := false
		for _, m := range elemsOf(st, q.mapping) {
			used = used || m.args[0].args[1] == ev.loop.itC
		}
		if !used && !exhausted(st, ev.loop, q.mapping) {
			continue
		}
		bad := ""
		for _, b := range ev.loop.backs {
			bs := mergeFacts(b.st, st)
			if bs == nil || q.infoless(bs, q.elem(b.st, q.mapping, ev.loop.itP)) {
				continue
			}
			if bad = q.passedOver(bs, q.elem(b.st, q.mapping, ev.loop.itP)); bad != "" {
				break
			}
		}
		if bad == "" {
			return "", ev.loop
		}
		why = bad
	}
	return why, nil
}

func ruleC60(c *Ctx) {
	c.rule("threshold", "a description is returned only from a group that has at least as many repositories as the mapping demands, and those are returned with it")
	c.rule("groups", "each repository of the mapping is asked through its own client for that path; its answer is counted once, in a group with an equal description")
	c.rule("unique", "no other group of the mapping can have reached the threshold")
	c.rule("equal", "descriptions are equal exactly if their lengths are and all algorithms both list, at least one, have equal digests")
	q := c.consensus()
	for _, r := range q.results() {
		if !r.ok {
			continue
		}
		pos := posOf(q.An, r.Outcome)
		why := "the result does not come from a list of groups"
		var found, among *groupVar
		var fm *Term
		for _, m := range q.mappings(r.st) {
			for _, p := range q.chosen(r.st, m) {
				if i := p[0].index(r.rets[0], p[0].list, p[0].info); i != nil && p[0].index(r.rets[1], p[0].list, p[0].repos) == i {
					found, among, fm = p[1], p[0], m
				}
			}
		}
		for _, g := range q.groupLists(r.st) {
			i := g.index(r.rets[0], g.list, g.info)
			if i == nil {
				continue
			}
			if g.index(r.rets[1], g.list, g.repos) != i {
				why = "the repositories returned are not those of the group the description is from"
				continue
			}
			why = "the group may have fewer repositories than its mapping demands"
			for _, m := range q.mappings(r.st) {
				if found == nil && q.short(r.st, g, m, i, false) {
					found, fm = g, m
				}
			}
		}
		if !c.check("threshold", found != nil, pos, r.st, "GetTargetInfo may return a description without a threshold of repositories: %s", why) {
			continue
		}
		w := q.sound(r.st, found, fm)
		c.check("groups", w == "", pos, r.st, "GetTargetInfo: %s", w)
		if w = q.unique(r.st, found, fm); among != nil && r.st.holds(ltT(mkLen(among.list), mkInt(2))) {
			w = ""
		}
		c.check("unique", w == "", pos, r.st, "GetTargetInfo may return a description although another one reached the threshold: %s", w)
	}
	c.need("threshold", 1)
	c.need("groups", 1)
	c.need("unique", 1)
	c.targetEquality()
	c.need("equal", 4)
}

// unique returns "" if at most one group reached the threshold: a completed
// loop over the groups sets a variable for each that did, and never twice.
func (q *consensus) unique(st *State, g *groupVar, m *Term) string {
	why := "no loop over all groups was completed"
	for _, ev := range st.events() {
		if ev.kind != "loopexit" || ev.loop == nil || !exhausted(st, ev.loop, g.list) {
			continue
		}
		why = "a group that reached the threshold may go unnoticed"
		for _, v := range ev.loop.vars {
			if q.once(st, ev.loop, v, g, m) {
				return ""
			}
		}
	}
	return why
}

// once decides that an iteration whose group reached the threshold changes v,
// from the value it had before the loop to another, or counts it.
func (q *consensus) once(st *State, sum *LoopSum, v *loopVar, g *groupVar, m *Term) bool {
	if v.init == nil {
		return false
	}
	counts := monotone(sum, v) > 0 && st.holds(ltT(v.symC, plus(v.init, 2)))
	// what tells a value the loop sets from the initial one
	isSet := []func(x *Term) *Term{func(x *Term) *Term { return not(eqT(x, v.init)) }}
	if n, ok := v.init.intVal(); ok && n < 0 {
		isSet = append(isSet, func(x *Term) *Term { return not(ltT(x, mkInt(0))) })
	}
	// the groups are not nil
	changed := func(st *State, set func(x *Term) *Term, x *Term) bool {
		return st.holds(set(x)) || v.init.isNil() && isElemOf(x, g.list)
	}
	for _, set := range isSet {
		ok := true
		for _, b := range sum.allBacks {
			nv := b.vals[v.id]
			switch {
			case nv == nil:
				ok = false
			case nv == v.symP || counts && nv == plus(v.symP, 1):
				ok = ok && (nv != v.symP || q.short(b.st, g, m, sum.itP, true))
			case q.short(b.st, g, m, sum.itP, true):
				ok = ok && changed(b.st, set, nv) // nothing resets it
			default:
				ok = ok && b.st.fails(set(v.symP)) && changed(b.st, set, nv)
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// targetEquality checks TargetFiles.Equal.
func (c *Ctx) targetEquality() {
	e := c.eng()
	an := c.analyse(e, c.P.method(c.P.namedType("metadata", "TargetFiles"), "Equal"), func(st *State, args []*Term) {
		for _, a := range args {
			if _, ok := under(a.typ).(*types.Pointer); ok {
				st.assume(nonNil(a), true)
			}
		}
	})
	field := func(st *State, a *Term, n string) *Term {
		if _, ok := under(a.typ).(*types.Pointer); ok {
			return field1(st, a, n)
		}
		return structFieldNamed(a, n)
	}
	for _, r := range an.bools() {
		pos := posOf(an, r.Outcome)
		l := eqT(field(an.entry, an.arg(0), "Length"), field(an.entry, an.arg(1), "Length"))
		var h [2]*Term
		for i := range h {
			h[i] = r.st.mapVal(field(an.entry, an.arg(i), "Hashes"))
		}
		if r.val {
			c.check("equal", r.st.holds(l), pos, r.st, "descriptions of different lengths may be equal")
			c.check("equal", an.agree(r.st, h), pos, r.st, "descriptions may be equal although a digest both list differs")
			c.check("equal", an.share(r.st, h), pos, r.st, "descriptions may be equal although they share no digest")
			continue
		}
		c.check("equal", r.st.fails(l) || an.disagree(r.st, h) || an.shareNone(r.st, h), pos, r.st, "equal descriptions may be told apart")
	}
}

// common says whether both maps are known to list the key.
func common(st *State, h [2]*Term, k *Term) bool {
	return listsKey(st, h[0], k) == 1 && listsKey(st, h[1], k) == 1
}

func listsKey(st *State, m, k *Term) int {
	if st.holds(lookupOK(m, k)) || k.op == "key" && k.args[0] == m {
		return 1
	}
	if st.fails(lookupOK(m, k)) {
		return -1
	}
	return 0
}

func (a *An) sameAt(st *State, h [2]*Term, k *Term) int {
	v := func(m *Term) *Term { return mk("lookup", "", mapElemType(m), m, k) }
	return bytesEqual(a.e, st, v(h[0]), v(h[1]))
}

// agree decides that the digests of all keys of both maps are equal.
func (a *An) agree(st *State, h [2]*Term) bool {
	for i := range h {
		if ok, _ := a.forallMap(st, h[i], func(bs *State, k *Term) string {
			if listsKey(bs, h[1-i], k) == -1 || a.sameAt(bs, h, k) == 1 {
				return ""
			}
			return "different"
		}); ok {
			return true
		}
	}
	return false
}

// commonKeys lists the keys st knows both maps to list.
func commonKeys(st *State, h [2]*Term) []*Term {
	var out []*Term
	for _, m := range h {
		for _, k := range keysIn(st, m) {
			if common(st, h, k) {
				out = append(out, k)
			}
		}
	}
	return out
}

// share decides that both maps list some key.
func (a *An) share(st *State, h [2]*Term) bool {
	some := func(bs *State) bool { return len(commonKeys(bs, h)) > 0 }
	return some(st) || a.someIteration(st, some) || a.counted(st, some)
}

// counted decides that a finished loop had an iteration in which pred held,
// because it counted such iterations and only those, and the count is positive.
func (a *An) counted(st *State, pred func(bs *State) bool) bool {
	for _, ev := range st.events() {
		if ev.kind != "loopexit" || ev.loop == nil {
			continue
		}
		for _, v := range ev.loop.vars {
			if monotone(ev.loop, v) <= 0 || !st.holds(ltT(v.init, v.symC)) {
				continue
			}
			ok := true
			for _, b := range ev.loop.allBacks {
				ok = ok && (b.vals[v.id] == v.symP || pred(b.st))
			}
			if ok {
				return true
			}
		}
	}
	return false
}

// disagree decides that both maps list some key with different digests.
func (a *An) disagree(st *State, h [2]*Term) bool {
	some := func(bs *State) bool {
		for _, k := range commonKeys(bs, h) {
			if a.sameAt(bs, h, k) == -1 {
				return true
			}
		}
		return false
	}
	return some(st) || a.someIteration(st, some) || a.counted(st, some)
}

// shareNone decides that no key is listed by both maps.
func (a *An) shareNone(st *State, h [2]*Term) bool {
	for i := range h {
		if st.holds(eqT(mkLen(h[i]), mkInt(0))) {
			return true
		}
		if ok, _ := a.forallMap(st, h[i], func(bs *State, k *Term) string {
			if listsKey(bs, h[1-i], k) == -1 {
				return ""
			}
			return "common"
		}); ok {
			return true
		}
	}
	return false
}

func ruleC61(c *Ctx) {
	c.rule("order", "when the search ends with a mapping, every mapping before it, in the order of the map file, had no matching pattern, or was not terminating and had no description that reached its threshold")
	c.rule("match", "a description is returned for a mapping only if one of its patterns matches the path")
	c.rule("errors", "the search fails only because a pattern is malformed, two descriptions reached the threshold, a matching terminating mapping has no consensus or all mappings were passed over")
	q := c.consensus()
	for _, r := range q.results() {
		pos := posOf(q.An, r.Outcome)
		w, loop := q.before(r.st)
		c.check("order", w == "", pos, r.st, "GetTargetInfo does not take the mappings in their order: %s", w)
		if loop == nil {
			continue
		}
		m := q.elem(r.st, q.mapping, loop.itC)
		if r.ok {
			c.check("match", q.matches(r.st, m), pos, r.st, "GetTargetInfo may return a description for a mapping none of whose patterns matches the path")
			continue
		}
		w = q.reason(r.st, m, loop)
		c.check("errors", w == "", pos, r.st, "GetTargetInfo may fail without a reason to: %s", w)
	}
	c.need("order", 4)
	c.need("match", 1)
	c.need("errors", 4)
}

func (q *consensus) reason(st *State, m *Term, loop *LoopSum) string {
	if exhausted(st, loop, q.mapping) {
		return ""
	}
	if q.someElem(st, get(st, m, "Paths"), func(bs *State, p *Term) bool { return bs.fails(isNilT(q.matchErr(p))) }) {
		return ""
	}
	if !q.matches(st, m) {
		return "no pattern of the mapping need match"
	}
	why := "the mapping need not be terminating"
	if st.holds(get(st, m, "Terminating")) {
		if why = q.none(st, m); why == "" {
			return ""
		}
	}
	for _, p := range q.chosen(st, m) {
		if st.holds(ltT(mkInt(1), mkLen(p[0].list))) && q.sound(st, p[1], m) == "" {
			return ""
		}
	}
	for _, g := range q.groupLists(st) {
		if q.sound(st, g, m) != "" {
			continue
		}
		seen := map[*Term]bool{}
		subterms(st, func(t *Term) {
			if i := g.index(t, g.list, g.repos); i != nil && q.short(st, g, m, i, false) {
				seen[i] = true
			}
		})
		if len(seen) > 1 {
			return ""
		}
		for _, ev := range st.events() {
			if ev.kind != "loopexit" || ev.loop == nil || !exhausted(st, ev.loop, g.list) {
				continue
			}
			for _, v := range ev.loop.vars {
				if monotone(ev.loop, v) <= 0 || !st.holds(ltT(plus(v.init, 1), v.symC)) {
					continue
				}
				ok := true
				for _, b := range ev.loop.allBacks {
					nv := b.vals[v.id]
					ok = ok && (nv == v.symP || nv == plus(v.symP, 1) && q.short(b.st, g, m, ev.loop.itP, false))
				}
				if ok {
					return ""
				}
			}
		}
	}
	return why
}

func init() {
	registry["C60"] = rule{ruleC60, "Path-sensitive abstract interpretation of MultiRepoClient.GetTargetInfo: an inductive reading of how the loop over the repositories builds the groups of agreeing answers, and what returning a group entails; the same for TargetFiles.Equal."}
	registry["C61"] = rule{ruleC61, "Path-sensitive abstract interpretation of MultiRepoClient.GetTargetInfo: what every completed iteration over mappings and patterns entails, and the reason of every error path."}
}
