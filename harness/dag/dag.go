// Package dag checks the dependency graph (C01-C04).
package dag

import (
	"github.com/sjansen/pgutil/internal/dag"
	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

var letters = []string{"a", "b", "c", "d", "e", "f"}

// names gives n distinct task names: any permutation of n letters when perm is set.
func names(n int, perm bool) []string {
	out := make([]string, n)
	used := make([]bool, n)
	for i := range out {
		k := i
		if perm {
			k = sym.Choose("name"+letters[i], n)
			sym.Assume(!used[k])
		}
		used[k] = true
		out[i] = letters[k]
	}
	return out
}

// symNames gives n distinct one-letter symbolic names.
func symNames(n int, set string) []string {
	out := make([]string, n)
	for i := range out {
		out[i] = sym.StrNIn("name"+letters[i], 1, set)
		for j := 0; j < i; j++ {
			sym.Assume(!sym.EqStr(out[i], out[j]))
		}
	}
	return out
}

// acyclic builds a dependency relation in which task i depends only on tasks j < i.
func acyclic(nm []string, dup bool) (map[string][]string, [][]bool) {
	n := len(nm)
	dep := make([][]bool, n)
	nodes := map[string][]string{}
	for i := range dep {
		dep[i] = make([]bool, n)
		var l []string
		for j := 0; j < i; j++ {
			if sym.Bool("e" + letters[i] + letters[j]) {
				dep[i][j] = true
				l = append(l, nm[j])
			}
		}
		if dup && len(l) > 0 && sym.Bool("dup"+letters[i]) {
			if sym.Bool("dupfirst" + letters[i]) {
				l = append([]string{l[0]}, l...)
			} else {
				l = append(l, l[0])
			}
		}
		nodes[nm[i]] = l
	}
	return nodes, dep
}

// choice chooses the next task to end, if it is not arbitrary.
var choice func(n int) int

// drive runs the graph to the end with any completion order.
func drive(nm []string, dep [][]bool, g *dag.DependencyGraph, prompt bool) {
	n := len(nm)
	released := make([]bool, n)
	completed := make([]bool, n)
	count := 0
	before := make([][]int, n)
	for i := range before {
		for j := range dep[i] {
			if dep[i][j] {
				before[i] = append(before[i], j)
			}
		}
	}
	accept := func(ids []string) {
		for _, id := range ids {
			k := -1
			for i := range nm {
				if nm[i] == id {
					k = i
				}
			}
			sym.Assert(k >= 0, "a released task is one of the tasks")
			sym.Assert(!released[k], "no task is released twice")
			for _, j := range before[k] {
				sym.Assert(completed[j], "a task is released only after everything it depends on completed")
			}
			released[k] = true
			count++
		}
		if prompt {
			for i := range nm {
				if released[i] {
					continue
				}
				ok := true
				for _, j := range before[i] {
					if !completed[j] {
						ok = false
						break
					}
				}
				sym.Assert(!ok, "no task that can start is left unreleased")
			}
			sym.Assert(g.HasPending() == (count < n), "tasks are pending exactly while some task is unreleased")
		}
	}
	sym.Assert(!prompt || g.HasPending() == (n > 0), "tasks are pending exactly while some task is unreleased")
	accept(g.Next(""))
	for step := 0; step < n; step++ {
		// complete any outstanding task
		var out []int
		for i := range nm {
			if released[i] && !completed[i] {
				out = append(out, i)
			}
		}
		if len(out) == 0 {
			break
		}
		var k int
		if choice != nil {
			k = out[choice(len(out))]
		} else {
			k = out[sym.Choose("complete", len(out))]
		}
		completed[k] = true
		accept(g.Next(nm[k]))
	}
	if prompt {
		sym.Assert(count == n, "completing released tasks releases every task")
	}
	sym.Reach("end")
}

// Order checks the release order.
//
//verif:harness C01 order n=4 mapdev=0
//verif:bound every acyclic relation over at most four tasks (fewer than four also with the empty name and repeated entries) with any distinct one-letter names, any completion order; a dependency may be listed twice
//verif:reach end
func Order() {
	n := sym.Choose("n", sym.Param("n", 3)+1)
	nm := symNames(n, letterSet(n))
	if n > 0 && n < 4 && sym.Bool("emptyname") {
		nm[sym.Choose("empty", n)] = ""
	}
	nodes, dep := acyclic(nm, n < 4)
	g, err := dag.NewDependencyGraph(nodes)
	sym.Assert(err == nil && g != nil, "an acyclic relation over known tasks is accepted")
	drive(nm, dep, g, false)
}

func letterSet(n int) string {
	s := ""
	for i := 0; i < n; i++ {
		s += letters[i]
	}
	if s == "" {
		s = "a"
	}
	return s
}

// OrderMaps repeats the check with other map iteration orders.
//
//verif:harness C01 maporder n=3 quick:mapdev=1 thorough:mapdev=2
//verif:bound map iteration may start anywhere (Go's rotation) in up to mapdev of the iterations
func OrderMaps() {
	n := sym.Param("n", 3)
	nm := symNames(n, letterSet(n))
	nodes, dep := acyclic(nm, false)
	g, err := dag.NewDependencyGraph(nodes)
	sym.Assert(err == nil && g != nil, "an acyclic relation over known tasks is accepted")
	drive(nm, dep, g, false)
}

// Prompt checks that nothing that can start is held back.
//
//verif:harness C02 prompt n=4
//verif:bound every acyclic relation over at most n tasks with any distinct one-letter names and any completion order
//verif:reach end
func Prompt() {
	n := sym.Choose("n", sym.Param("n", 3)+1)
	nm := symNames(n, letterSet(n))
	if n > 0 && n < 4 && sym.Bool("emptyname") {
		nm[sym.Choose("empty", n)] = ""
	}
	nodes, dep := acyclic(nm, n < 4)
	g, err := dag.NewDependencyGraph(nodes)
	sym.Assert(err == nil && g != nil, "an acyclic relation over known tasks is accepted")
	drive(nm, dep, g, true)
}

// PromptMaps repeats it with other map iteration orders.
//
//verif:harness C02 maporder n=3 quick:mapdev=1 thorough:mapdev=2
//verif:bound map iteration may start anywhere (Go's rotation) in up to mapdev of the iterations
func PromptMaps() {
	n := sym.Param("n", 3)
	nm := symNames(n, letterSet(n))
	nodes, dep := acyclic(nm, false)
	g, err := dag.NewDependencyGraph(nodes)
	sym.Assert(err == nil && g != nil, "an acyclic relation over known tasks is accepted")
	drive(nm, dep, g, true)
}

// PromptWide has more tasks with a fixed name order.
//
//verif:harness C02 wide quick:n=5 thorough:n=6
//verif:bound every acyclic relation over n tasks (5 quick, 6 thorough) whose dependencies precede them in name order, any completion order
func PromptWide() {
	n := sym.Param("n", 6)
	nm := letters[:n]
	nodes, dep := acyclic(nm, false)
	g, err := dag.NewDependencyGraph(nodes)
	sym.Assert(err == nil && g != nil, "an acyclic relation over known tasks is accepted")
	drive(nm, dep, g, true)
}

// OrderWide has more tasks with a fixed name order.
//
//verif:harness C01 wide quick:n=5 thorough:n=6
//verif:bound every acyclic relation over n tasks (5 quick, 6 thorough) whose dependencies precede them in name order, any completion order
func OrderWide() {
	n := sym.Param("n", 6)
	nm := letters[:n]
	nodes, dep := acyclic(nm, false)
	g, err := dag.NewDependencyGraph(nodes)
	sym.Assert(err == nil && g != nil, "an acyclic relation over known tasks is accepted")
	drive(nm, dep, g, false)
}

// relation builds any relation over n known names and possibly an unknown one.
func relation(nm []string, unknown string, maxUnknown int) (nodes map[string][]string, dep [][]bool, dangling [][2]string) {
	n := len(nm)
	dep = make([][]bool, n)
	nodes = map[string][]string{}
	for i := range nm {
		dep[i] = make([]bool, n)
		var l []string
		for j := range nm {
			if sym.Bool("e" + letters[i] + letters[j]) {
				dep[i][j] = true
				l = append(l, nm[j])
			}
		}
		if len(dangling) < maxUnknown && sym.Bool("unknown"+letters[i]) {
			dangling = append(dangling, [2]string{nm[i], unknown})
			l = append(l, unknown)
		}
		if n < 3 && len(l) > 1 && sym.Bool("dup"+letters[i]) {
			l = append([]string{l[0]}, l...)
		}
		nodes[nm[i]] = l
	}
	return
}

// wordNames gives four names that share their beginnings and ends: x, xSy, ySz and z, where S is a
// short text of any bytes, or the same with texts that occur in the sources.
func wordNames(n int) []string {
	s := ""
	if sym.Bool("word") {
		s = sym.Literal("separator", "internal/dag,internal/runbook,internal/scheduler", "", sym.Param("literal", 3))
	} else {
		s = sym.Str("separator", sym.Param("separator", 2))
	}
	all := []string{"x", "x" + s + "y", "y" + s + "z", "z"}[:n]
	for i := range all {
		for j := 0; j < i; j++ {
			sym.Assume(!sym.EqStr(all[i], all[j]))
		}
	}
	return all
}

// OrderWords uses longer names.
//
//verif:harness C01 words n=4 separator=1 thorough:separator=2
//verif:harness C02 words n=4 separator=1 thorough:separator=2
//verif:bound names x, xSy, ySz and z where S is up to separator bytes of any value, or a short string constant of the packages under test; every acyclic relation whose dependencies precede them in that order
//verif:reach end
func OrderWords() {
	nm := wordNames(sym.Param("n", 4))
	nodes, dep := acyclic(nm, false)
	g, err := dag.NewDependencyGraph(nodes)
	sym.Assert(err == nil && g != nil, "an acyclic relation over known tasks is accepted")
	drive(nm, dep, g, true)
}

// InvalidWords uses longer names.
//
//verif:harness C03 words n=3 separator=1 thorough:separator=2
//verif:bound names x, xSy and ySz where S is up to separator bytes of any value, or a short string constant of the packages under test; every relation over them
//verif:reach cycle acyclic
func InvalidWords() {
	nm := wordNames(sym.Param("n", 3))
	nodes, dep, dangling := relation(nm, nm[0]+"?", 1)
	validate(nm, dep, nodes, dangling)
}

func cyclic(dep [][]bool) bool {
	n := len(dep)
	r := make([][]bool, n)
	for i := range r {
		r[i] = append([]bool(nil), dep[i]...)
	}
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if r[i][k] && r[k][j] {
					r[i][j] = true
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		if r[i][i] {
			return true
		}
	}
	return false
}

func index(nm []string, s string) int {
	for i := range nm {
		if nm[i] == s {
			return i
		}
	}
	return -1
}

// checkCycle: consecutive members of the list depend on each other, all in the same direction, and
// the list closes.
func checkCycle(nm []string, dep [][]bool, cyc []string) {
	sym.Assert(len(cyc) > 0, "a reported cycle names the tasks on it")
	idx := make([]int, len(cyc))
	seen := map[string]bool{}
	for i, c := range cyc {
		idx[i] = index(nm, c)
		sym.Assert(idx[i] >= 0, "a reported cycle contains only tasks of the graph")
		sym.Assert(!seen[c], "a reported cycle names each task once")
		seen[c] = true
	}
	fwd, back := true, true
	for i := range idx {
		j := (i + 1) % len(idx)
		if !dep[idx[i]][idx[j]] {
			fwd = false
		}
		if !dep[idx[j]][idx[i]] {
			back = false
		}
	}
	sym.Assert(fwd || back, "the tasks of a reported cycle depend on each other in a ring")
}

func validate(nm []string, dep [][]bool, nodes map[string][]string, dangling [][2]string) {
	g, err := dag.NewDependencyGraph(nodes)
	if len(dangling) > 0 {
		sym.Assert(err != nil && g == nil, "a reference to an unknown task is rejected")
		switch e := err.(type) {
		case *dag.InvalidEdgeError:
			ok := false
			for _, d := range dangling {
				if d[0] == e.Node && d[1] == e.Edge {
					ok = true
				}
			}
			sym.Assert(ok, "the reported unknown reference exists")
			sym.Assert(e.Error() != "", "the error has a text")
		case *dag.CircularDependencyError:
			checkCycle(nm, dep, e.Cycle)
		default:
			sym.Fail("the error explains what is invalid")
		}
		sym.Reach("dangling")
		return
	}
	if cyclic(dep) {
		sym.Assert(err != nil && g == nil, "a cycle is rejected")
		e, ok := err.(*dag.CircularDependencyError)
		sym.Assert(ok, "a cycle is reported as a cycle")
		checkCycle(nm, dep, e.Cycle)
		sym.Assert(e.Error() != "", "the error has a text")
		sym.Reach("cycle")
		return
	}
	sym.Assert(err == nil && g != nil, "an acyclic relation over known tasks is accepted")
	sym.Reach("acyclic")
}

// Invalid checks which relations are rejected and with what witness.
//
//verif:harness C03 invalid quick:n=3 thorough:n=4 mapdev=0
//verif:bound every relation (cyclic, self-referential, dangling) over at most n tasks (3 quick, 4 thorough); names are the empty name or one-letter names in any order
//verif:reach dangling cycle acyclic
func Invalid() {
	n := 1 + sym.Choose("n", sym.Param("n", 3))
	var nm []string
	unknown := "x"
	if n <= 3 {
		nm = symNames(n, letterSet(n))
		if sym.Bool("emptyname") {
			nm[n-1] = ""
		} else if n <= 2 && sym.Bool("emptyunknown") {
			unknown = ""
		}
	} else {
		nm = letters[:n]
	}
	nodes, dep, dangling := relation(nm, unknown, 2)
	validate(nm, dep, nodes, dangling)
}

// InvalidMaps repeats it with other map iteration orders.
//
//verif:harness C03 maporder quick:n=2 thorough:n=3 quick:mapdev=2 thorough:mapdev=1
//verif:bound map iteration may start anywhere in up to mapdev iterations
func InvalidMaps() {
	n := sym.Param("n", 2)
	nm := letters[:n]
	nodes, dep, dangling := relation(nm, "x", 2)
	validate(nm, dep, nodes, dangling)
}

// Sort checks the topological sort itself.
//
//verif:harness C03 tsort quick:n=4 thorough:n=5 mapdev=0
//verif:bound every acyclic relation over at most n nodes with any distinct one-letter names
//verif:reach end
func Sort() {
	n := sym.Choose("n", sym.Param("n", 4)+1)
	nm := symNames(n, letterSet(n))
	nodes, dep := acyclic(nm, n < 4)
	sorted(nm, nodes, dep)
}

// SortMaps checks that the sort does not depend on map iteration order.
//
//verif:harness C03 tsortmap n=3 mapdev=2 thorough:n=4
//verif:bound map iteration may start anywhere in up to mapdev iterations; the result is compared with a second sort
func SortMaps() {
	nm := letters[:sym.Param("n", 3)]
	nodes, dep := acyclic(nm, false)
	sorted(nm, nodes, dep)
}

func sorted(nm []string, nodes map[string][]string, dep [][]bool) {
	g, err := dag.NewDirectedGraph(nodes)
	sym.Assert(err == nil && g != nil, "a relation over known nodes is accepted")
	order, cycle := dag.TSort(g)
	sym.Assert(cycle == nil, "an acyclic graph has no cycle")
	sym.Assert(len(order) == len(nm), "the sort lists every node once")
	pos := make([]int, len(nm))
	for i := range pos {
		pos[i] = -1
	}
	for p, s := range order {
		k := index(nm, s)
		sym.Assert(k >= 0 && pos[k] < 0, "the sort lists every node once")
		pos[k] = p
	}
	for i := range nm {
		for j := range nm {
			sym.Assert(!dep[i][j] || pos[j] < pos[i], "the sort lists dependencies first")
		}
	}
	// a second graph with the same content sorts the same way
	h, err := dag.NewDirectedGraph(nodes)
	sym.Assert(err == nil, "a relation over known nodes is accepted")
	again, _ := dag.TSort(h)
	sym.Assert(len(again) == len(order), "the same graph sorts the same way")
	for i := range again {
		sym.Assert(again[i] == order[i], "the same graph sorts the same way")
	}
	sym.Reach("end")
}

// Edits applies any sequence of edits.
//
//verif:harness C04 edits quick:edits=3 thorough:edits=4
//verif:bound every sequence of at most 4 (quick) or 5 (thorough) edits over three names starting from an empty graph or a two-node graph
//verif:reach end
func Edits() {
	k := 3
	nm := letters[:k]
	node := make([]bool, k)
	edge := make([][]bool, k)
	for i := range edge {
		edge[i] = make([]bool, k)
	}
	var g *dag.DirectedGraph
	var err error
	if sym.Bool("seeded") {
		g, err = dag.NewDirectedGraph(map[string][]string{"a": {"b", "a", "b"}, "b": nil})
		node[0], node[1] = true, true
		edge[0][0], edge[0][1] = true, true
	} else {
		g, err = dag.NewDirectedGraph(nil)
	}
	sym.Assert(err == nil, "the initial graph is valid")
	steps := sym.Param("edits", 3)
	for s := 0; s < steps; s++ {
		op := sym.Choose("op", 4)
		i := sym.Choose("i", k)
		j := 0
		if op < 3 {
			j = sym.Choose("j", k)
		}
		switch op {
		case 0:
			g.AddEdge(nm[i], nm[j])
			node[i], node[j], edge[i][j] = true, true, true
		case 1:
			l := sym.Choose("l", k)
			g.AddEdges(nm[i], []string{nm[j], nm[l]})
			node[i], node[j], node[l] = true, true, true
			edge[i][j], edge[i][l] = true, true
		case 2:
			g.RemoveEdge(nm[i], nm[j])
			edge[i][j] = false
		case 3:
			g.RemoveNode(nm[i])
			node[i] = false
			for x := range nm {
				edge[i][x], edge[x][i] = false, false
			}
		}
		for x := range nm {
			deg := 0
			for y := range nm {
				if edge[x][y] {
					deg++
				}
			}
			sym.Assert(g.HasNode(nm[x]) == node[x], "the graph has exactly the nodes the edits imply")
			sym.Assert(g.OutDegree(nm[x]) == deg, "the out-degree is the number of distinct edges")
			out, has := (*g)[nm[x]]
			if node[x] {
				sym.Assert(has, "the graph has exactly the nodes the edits imply")
				for y := range nm {
					sym.Assert(out.Contains(nm[y]) == edge[x][y], "the graph has exactly the edges the edits imply")
				}
				sym.Assert(out.Size() == deg, "the out-degree is the number of distinct edges")
			}
		}
		sym.Assert(!g.HasNode("zz") && g.OutDegree("zz") == 0, "an unknown node is not in the graph")
	}
	sym.Reach("end")
}

// EditsLarge starts from any graph over four nodes and edits it once.
//
//verif:harness C04 oneedit
//verif:bound every graph over three nodes with symbolic distinct names, then any one edit with any name
//verif:reach end
func EditsLarge() {
	k := 3
	nm := symNames(k, "abcd")
	nodes := map[string][]string{}
	edge := make([][]bool, k)
	for i := range nm {
		edge[i] = make([]bool, k)
		var l []string
		for j := range nm {
			if sym.Bool("e" + letters[i] + letters[j]) {
				edge[i][j] = true
				l = append(l, nm[j])
			}
		}
		nodes[nm[i]] = l
	}
	g, err := dag.NewDirectedGraph(nodes)
	sym.Assert(err == nil && g != nil, "a relation over known nodes is accepted")
	n := sym.StrNIn("edit", 1, "abcde")
	at := index(nm, n)
	switch sym.Choose("op", 3) {
	case 0:
		g.RemoveNode(n)
		for i := range nm {
			sym.Assert(g.HasNode(nm[i]) == (i != at), "removing a node removes it and nothing else")
			for j := range nm {
				set := (*g)[nm[i]]
				sym.Assert(set.Contains(nm[j]) == (edge[i][j] && i != at && j != at), "removing a node removes exactly its edges")
			}
		}
		sym.Assert(!g.HasNode(n), "removing a node removes it and nothing else")
	case 1:
		g.RemoveEdge(nm[0], n)
		for i := range nm {
			sym.Assert(g.HasNode(nm[i]), "removing an edge keeps every node")
			for j := range nm {
				set := (*g)[nm[i]]
				sym.Assert(set.Contains(nm[j]) == (edge[i][j] && !(i == 0 && j == at)), "removing an edge removes only that edge")
			}
		}
		sym.Assert(g.HasNode(n) == (at >= 0), "removing an edge adds no node")
	case 2:
		g.AddEdge(n, nm[0])
		sym.Assert(g.HasNode(n), "adding an edge adds both end points")
		set := (*g)[n]
		sym.Assert(set.Contains(nm[0]), "adding an edge adds it")
		for i := range nm {
			sym.Assert(g.HasNode(nm[i]), "adding an edge keeps every node")
			for j := range nm {
				set := (*g)[nm[i]]
				sym.Assert(set.Contains(nm[j]) == (edge[i][j] || i == at && j == 0), "adding an edge keeps the others")
			}
		}
	}
	sym.Reach("end")
}

// shape is a relation over many tasks.
func shape(kind, n int, dep func(i, j int)) {
	for i := 1; i < n; i++ {
		switch kind {
		case 0: // all follow the first
			dep(i, 0)
		case 1: // a chain
			dep(i, i-1)
		case 2: // the last follows all
			if i == n-1 {
				for j := 0; j < i; j++ {
					dep(i, j)
				}
			}
		case 3: // a binary tree
			dep(i, (i-1)/2)
		case 4: // two chains
			if i > 1 {
				dep(i, i-2)
			}
		case 5: // layers of three
			for j := i/3*3 - 3; j >= 0 && j < i/3*3; j++ {
				dep(i, j)
			}
		}
	}
}

const shapes = 7

func many(name string, n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, name+string(rune('a'+i/26))+string(rune('a'+i%26)))
	}
	return out
}

var sizes = []int{8, 9, 16, 17, 33, 65}

// manyTasks is a relation over many tasks.
func manyTasks() (nm []string, nodes map[string][]string, dep [][]bool) {
	n := sym.Param("size", 0)
	if n == 0 {
		n = sizes[sym.Choose("size", sym.Param("sizes", 2))]
	}
	nm = many("t", n)
	dep = make([][]bool, n)
	for i := range dep {
		dep[i] = make([]bool, n)
	}
	reverse := sym.Bool("reverse")
	nodes = map[string][]string{}
	for i := range nm {
		nodes[nm[i]] = nil
	}
	shape(sym.Choose("shape", shapes), n, func(i, j int) {
		if reverse {
			i, j = n-1-i, n-1-j
		}
		dep[i][j] = true
		nodes[nm[i]] = append(nodes[nm[i]], nm[j])
	})
	return
}

// OrderMany has many tasks.
//
//verif:harness C01 many sizes=5 switches=1 thorough:sizes=6 thorough:switches=2
//verif:harness C02 many sizes=5 switches=1 thorough:sizes=6 thorough:switches=2
//verif:harness C01 huge size=300 switches=0 steps=100000000
//verif:harness C02 huge size=300 switches=0 steps=100000000
//verif:bound (many) 8 to 33 (thorough: 65) tasks, (huge) 300 tasks, in seven shapes (star, chain, join, tree, two chains, layers, independent), named in order or in the opposite order; tasks end in the order they started or the opposite, but for up to switches exceptions
//verif:reach end
func OrderMany() {
	nm, nodes, dep := manyTasks()
	lifo, exceptions := sym.Bool("lifo"), sym.Param("switches", 1)
	choice = func(n int) int {
		k := 0
		if lifo {
			k = n - 1
		}
		if exceptions > 0 && sym.Bool("exception") {
			exceptions--
			k = n / 2
		}
		return k
	}
	defer func() { choice = nil }()
	g, err := dag.NewDependencyGraph(nodes)
	sym.Assert(err == nil && g != nil, "an acyclic relation over known tasks is accepted")
	drive(nm, dep, g, true)
}

// EditsMany edits a larger graph.
//
//verif:harness C04 editsmany sizes=3 thorough:sizes=5
//verif:bound (editsmany) 8 to 16 (thorough: 33) nodes in seven shapes, in one direction or the other, then any one edit of any of them
//verif:reach end
func EditsMany() {
	nm, nodes, edge := manyTasks()
	if sym.Bool("reversed") {
		back := map[string][]string{}
		rev := make([][]bool, len(nm))
		for i := range nm {
			rev[i] = make([]bool, len(nm))
			back[nm[i]] = nil
		}
		for i := range nm {
			for j := range nm {
				if edge[i][j] {
					rev[j][i] = true
					back[nm[j]] = append(back[nm[j]], nm[i])
				}
			}
		}
		nodes, edge = back, rev
	}
	g, err := dag.NewDirectedGraph(nodes)
	sym.Assert(err == nil && g != nil, "a relation over known nodes is accepted")
	i := sym.Choose("node", len(nm))
	gone := -1
	switch sym.Choose("op", 4) {
	case 0:
		g.RemoveNode(nm[i])
		gone = i
		for j := range nm {
			edge[i][j], edge[j][i] = false, false
		}
	case 1:
		j := sym.Choose("to", len(nm))
		g.RemoveEdge(nm[i], nm[j])
		edge[i][j] = false
	case 2:
		j := sym.Choose("to", len(nm))
		g.AddEdge(nm[i], nm[j])
		edge[i][j] = true
	case 3:
		g.AddEdges(nm[i], nm)
		for j := range nm {
			edge[i][j] = true
		}
	}
	for x := range nm {
		sym.Assert(g.HasNode(nm[x]) == (x != gone), "the graph has exactly the nodes the edits imply")
		deg := 0
		set := (*g)[nm[x]]
		for y := range nm {
			if edge[x][y] {
				deg++
			}
			sym.Assert(set.Contains(nm[y]) == edge[x][y], "the graph has exactly the edges the edits imply")
		}
		sym.Assert(g.OutDegree(nm[x]) == deg, "the out-degree is the number of distinct edges")
	}
	sym.Reach("end")
}

// InvalidMany has many tasks.
//
//verif:harness C03 many sizes=3 thorough:sizes=5
//verif:bound (many) 8 to 16 (thorough: 33) tasks in seven shapes, with one more edge between any two of them, or from any of them to an unknown one, or none
//verif:reach dangling cycle acyclic
func InvalidMany() {
	nm, nodes, dep := manyTasks()
	var dangling [][2]string
	i := sym.Choose("from", len(nm))
	switch sym.Choose("more", 3) {
	case 0:
		sorted(nm, nodes, dep)
	case 1:
		dangling = append(dangling, [2]string{nm[i], "x"})
		nodes[nm[i]] = append(nodes[nm[i]], "x")
	case 2:
		j := sym.Choose("to", len(nm))
		nodes[nm[i]] = append(nodes[nm[i]], nm[j])
		dep[i][j] = true
	}
	validate(nm, dep, nodes, dangling)
}
