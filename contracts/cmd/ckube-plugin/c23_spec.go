package main

import (
	"io"
	"os"
	"os/exec"
	"strings"

	"github.com/DaoCloud/ckube/kube"
	"github.com/DaoCloud/ckube/page"
)

// ---- C23 what the words of the command line mean, read one by one

// specPend: the last word is a --clusters option whose value is still to come.
func specPend(xs []string) bool {
	if len(xs) == 0 {
		return false
	}
	return !specPend(xs[:len(xs)-1]) && xs[len(xs)-1] == "--clusters"
}

// specKept: the words without the --clusters options.
func specKept(xs []string) []string {
	if len(xs) == 0 {
		return []string{}
	}
	if specPend(xs[:len(xs)-1]) || xs[len(xs)-1] == "--clusters" {
		return specKept(xs[:len(xs)-1])
	}
	return append(specKept(xs[:len(xs)-1]), xs[len(xs)-1])
}

// specClusters: the value of the last --clusters option.
func specClusters(xs []string) string {
	if len(xs) == 0 {
		return ""
	}
	if specPend(xs[:len(xs)-1]) {
		return xs[len(xs)-1]
	}
	return specClusters(xs[:len(xs)-1])
}

// specCmd: the subcommand, 0: none of get (1) and create (2).
func specCmd(xs []string) int {
	if len(xs) == 0 {
		return 0
	}
	if specCmd(xs[:len(xs)-1]) != 0 || specPend(xs[:len(xs)-1]) {
		return specCmd(xs[:len(xs)-1])
	}
	if xs[len(xs)-1] == "get" {
		return 1
	}
	if xs[len(xs)-1] == "create" {
		return 2
	}
	return 0
}

// specSel: where in the kept words the selector is, 0: there is none.
func specSel(xs []string) int {
	if len(xs) == 0 {
		return 0
	}
	if !specPend(xs[:len(xs)-1]) && (xs[len(xs)-1] == "-l" || xs[len(xs)-1] == "--selector") {
		return len(specKept(xs))
	}
	return specSel(xs[:len(xs)-1])
}

// GRuns, GRun: how often and with which words a program was run.
var GRuns int
var GRun []string

// GIn, GOut, GErr: the streams of the program.
var GIn io.Reader
var GOut, GErr io.Writer

//@ func exec.Command(name string, arg []string) (c *exec.Cmd)
//@ trusted
//@ ensures c != nil && vFresh(c) && len(c.Args) == len(arg)+1 && c.Args[0] == name && vEq(c.Args[1:], arg)

//@ func (c *exec.Cmd) Run() (err error)
//@ trusted
//@ modifies GRuns, GRun, GIn, GOut, GErr
//@ ensures GRuns == vOld(GRuns)+1 && vEq(GRun, vOld(c.Args)) && GIn == vOld(c.Stdin) && GOut == vOld(c.Stdout) && GErr == vOld(c.Stderr)

// the plugin ends early only with an error, and before it ran anything
//@ func os.Exit(code int)
//@ trusted
//@ requires code != 0 && GRuns == 0
//@ ensures false

// specQuery: selector out is selector in with a query for exactly these clusters.
func specQuery(out, in string, cs []string) bool {
	return vEx(func(p page.Paginate) bool {
		return p.Page == 0 && p.PageSize == 0 && p.Sort == "" && page.SpecRestrictedIn(p.Search, "", "cluster", cs) && page.SpecCarries(out, in, p)
	})
}

func specUser() []string { return specKept(os.Args[1:]) }

var _ = exec.Command
var _ = strings.Split
var _ = kube.SpecMarshals

//@ func main()
//@ modifies GRuns, GRun, GIn, GOut, GErr
//@ requires GRuns == 0 && len(os.Args) > 0 && os.Args[len(os.Args)-1] != "-l" && os.Args[len(os.Args)-1] != "--selector"
//@ requires specSel(os.Args[1:]) < len(specKept(os.Args[1:])) || specSel(os.Args[1:]) == 0
//@ requires vAll(func(p page.Paginate) bool { return kube.SpecMarshals(p) && vImp(p.Search != "", !page.SpecPlain(p)) })
//@ loop[C23](i int) 1 <= i && i <= len(os.Args) && vImp(specPend(os.Args[1:i]), i == len(os.Args))
//@ loop[C23](i int, args []string) vEq(args, specKept(os.Args[1:i]))
//@ loop[C23](i int, clusters string) clusters == specClusters(os.Args[1:i])
//@ loop[C23](i int, typ int) typ == vIte(specCmd(os.Args[1:i]) == 1, 0, vIte(specCmd(os.Args[1:i]) == 2, 1, 3)) && 0 <= specCmd(os.Args[1:i]) && specCmd(os.Args[1:i]) <= 2
//@ loop[C23](i int, selectorPos int) selectorPos == specSel(os.Args[1:i])
//@ ensures[C23] kubectl is run once: GRuns == 1 && len(GRun) > 0 && GRun[0] == "kubectl"
//@ ensures[C23] with the streams of the user: GIn == io.Reader(os.Stdin) && GOut == io.Writer(os.Stdout) && GErr == io.Writer(os.Stderr)
//@ ensures[C23] only for known commands: specCmd(os.Args[1:]) != 0
//@ ensures[C23] without clusters the words of the user: vImp(specClusters(os.Args[1:]) == "", vEq(GRun[1:], specUser()))
//@ ensures[C23] get without a selector gets one: vImp(specClusters(os.Args[1:]) != "" && specCmd(os.Args[1:]) == 1 && specSel(os.Args[1:]) == 0, len(GRun) == len(specUser())+3 &&
//@ | vEq(GRun[1:], append(append(specUser(), "-l"), GRun[1:][len(specUser())+1])))
//@ ensures[C23] a new selector carries the query: vImp(specClusters(os.Args[1:]) != "" && specCmd(os.Args[1:]) == 1 && specSel(os.Args[1:]) == 0, specQuery(GRun[1:][len(specUser())+1], "", strings.Split(specClusters(os.Args[1:]), ",")))
//@ ensures[C23] other words unchanged: vImp(specClusters(os.Args[1:]) != "" && specCmd(os.Args[1:]) == 1 && specSel(os.Args[1:]) != 0, len(GRun) == len(specUser())+1 &&
//@ | vAll(func(j int) bool { return vImp(0 <= j && j < len(specUser()) && j != specSel(os.Args[1:]), GRun[1:][j] == specUser()[j]) }))
//@ ensures[C23] the given selector carries the query: vImp(specClusters(os.Args[1:]) != "" && specCmd(os.Args[1:]) == 1 && specSel(os.Args[1:]) != 0, specQuery(GRun[1:][specSel(os.Args[1:])], specUser()[specSel(os.Args[1:])], strings.Split(specClusters(os.Args[1:]), ",")))
//@ ensures[C23] create names the cluster: vImp(specClusters(os.Args[1:]) != "" && specCmd(os.Args[1:]) == 2, len(strings.Split(specClusters(os.Args[1:]), ",")) == 1 &&
//@ | vEq(GRun[1:], append(append(specUser(), "--field-manager"), "dsm-cluster-"+strings.Split(specClusters(os.Args[1:]), ",")[0])))
//@ nopanic[C23]
