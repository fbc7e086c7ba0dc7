// Command mcpub explores semnet through its public interface.
package main

import "github.com/mem-memov/semnet/verifmc/fw"

func main() {
	var checks []*fw.Check
	checks = append(checks, navChecks()...)
	checks = append(checks, textChecks()...)
	checks = append(checks, opsChecks()...)
	checks = append(checks, idChecks()...)
	checks = append(checks, faultChecks()...)
	checks = append(checks, versionChecks()...)
	checks = append(checks, treeChecks()...)
	checks = append(checks, extraChecks()...)
	checks = append(checks, costChecks()...)
	checks = append(checks, orderChecks()...)
	checks = append(checks, recordChecks()...)
	checks = append(checks, duringChecks()...)
	checks = append(checks, overlapChecks()...)
	checks = append(checks, raceChecks()...)
	withClock(func() { fw.Main(checks) })
}
