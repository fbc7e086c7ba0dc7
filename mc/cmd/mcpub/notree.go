//go:build !internals

package main

import "github.com/mem-memov/semnet/verifmc/fw"

// treeChecks without the library's internal packages: if those have been
// rearranged, so that tree.go does not compile, what the tree shows at the
// public interface is judged instead.
func treeChecks() []*fw.Check {
	c := modelCheck("C21", "the internal packages are not as tree.go expects them, so only the public consequences of the story tree are judged: "+navRule, qNextStory|qFirstFact, navGen("SCFR", "SC", 7, 8))
	return []*fw.Check{c}
}

// recordChecks without the internal packages: broken records show in answers.
func recordChecks() []*fw.Check {
	c := modelCheck("C26", "the internal packages are not as records.go expects them, so only what broken records show at the public interface is judged: "+navRule, qText|qNextStory|qFirstFact|qNextFact, navGen("SFRC", "SF", 5, 6))
	return []*fw.Check{c}
}

// innerQuestions without the internal packages: none.
func innerQuestions(e *Env) []innerQuestion { return nil }
