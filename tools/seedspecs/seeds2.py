SEEDS=[dict(id='dag-release-twice', prop='C01', pkg='internal/dag',
 edits=[('internal/dag/dependency.go', '''			head.next = p.next
''', '''			if g.dependents[p.id] == nil && p.next == nil && len(ready) > 1 {
				break // the last task of the list, and nothing depends on it
			}
			head.next = p.next
''')],
 test='''
package dag

import "testing"

func TestDemo(t *testing.T) {
	g, err := NewDependencyGraph(map[string][]string{"a": nil, "b": {"a"}, "c": {"b"}, "d": {"a"}, "e": {"a"}})
	if err != nil {
		t.Fatal(err)
	}
	seen := map[string]bool{}
	for _, x := range []string{"", "a", "d", "b", "e", "c"} {
		for _, id := range g.Next(x) {
			if seen[id] {
				t.Fatal(id, "released twice")
			}
			seen[id] = true
		}
	}
	g, err = NewDependencyGraph(map[string][]string{"a": nil, "b": {"a"}, "c": nil, "d": nil})
	if err != nil {
		t.Fatal(err)
	}
	seen = map[string]bool{}
	for _, x := range []string{"", "c", "d", "a", "b"} {
		for _, id := range g.Next(x) {
			if seen[id] {
				t.Fatal(id, "released twice")
			}
			seen[id] = true
		}
	}
}
''', needs='the last task of the topological order becoming ready together with another one while an earlier task is pending', breaks='the task stays in the pending list and is released again')]
