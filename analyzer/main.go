// Command verify decides the properties of the adaptive radix tree library from
// its source code.
package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Ctx is what all checks work on.
type Ctx struct {
	p   *Prog
	r   *Roles
	own *ownA

	fnRole map[*ssa.Function]int
	kept   int64
	subs   map[string]*Result
	reads  map[*ssa.Function]bool
}

func (c *Ctx) ownership() *ownA {
	if c.own == nil {
		c.own = newOwn(c.p, c.r)
		c.own.run()
	}
	return c.own
}

type checkFn func(*Ctx, *Result)

var checks = map[string]checkFn{
	"C01": checkC01,
	"C02": checkC02,
	"C03": checkC03,
	"C04": checkC04,
	"C05": checkC05,
	"C06": checkC06,
	"C07": checkC07,
	"C08": checkC08,
	"C09": checkC09,
	"C10": checkC10,
	"C11": checkC11,
	"C12": checkC12,
	"C13": checkC13,
	"C14": checkC14,
	"C15": checkC15,
	"C16": checkC16,
	"C17": checkC17,
	"C18": checkC18,
	"C19": checkC19,
	"C21": checkC21,
	"C20": checkC20,
	"C22": checkC22,
	"C23": checkC23,
	"C24": checkC24,
	"C25": checkC25,
	"C26": checkC26,
	"C27": checkC27,
	"C28": checkC28,
	"C29": checkC29,
	"C30": checkC30,
	"C31": checkC31,
}

func main() {
	repo := flag.String("repo", "/repo", "source tree to analyse")
	verif := flag.String("verif", "/verif", "directory for evidence")
	dumpF := flag.String("dump", "", "print the states of a function (debugging)")
	flag.Parse()
	start := time.Now()
	if flag.NArg() != 1 {
		fmt.Println("usage: verify [-repo dir] [-verif dir] PROPERTY")
		os.Exit(2)
	}
	id := flag.Arg(0)
	fn := checks[id]
	if fn == nil && *dumpF == "" && id != "all" && !strings.Contains(id, ",") {
		fmt.Println("unknown property", id)
		os.Exit(2)
	}
	p, err := loadProg(*repo)
	if err != nil {
		fmt.Println("ERROR", err)
		os.Exit(2)
	}
	r, err := findRoles(p)
	if err != nil {
		fmt.Println("ERROR", err)
		os.Exit(2)
	}
	ctx := &Ctx{p: p, r: r}
	if *dumpF != "" {
		if *dumpF == "recs" {
			dumpRecs(ctx, true, false)
			return
		}
		dump(ctx, *dumpF)
		return
	}
	if fn == nil {
		// several checks in turn, for trying out the analyzer
		var ids []string
		for i := range checks {
			if id == "all" || strings.Contains(id, i) {
				ids = append(ids, i)
			}
		}
		sort.Strings(ids)
		worst := 0
		for _, i := range ids {
			t := time.Now()
			res := newResult()
			checks[i](ctx, res)
			if s := supports[i]; s != nil {
				s(ctx, res)
			}
			if n := finish(i, *verif, res, t, ctx); n > worst {
				worst = n
			}
		}
		os.Exit(worst)
	}
	res := newResult()
	fn(ctx, res)
	if s := supports[id]; s != nil {
		s(ctx, res)
	}
	os.Exit(finish(id, *verif, res, start, ctx))
}
