// Command cfg runs programs that use mockey, built with different flags and with different environments, and looks at
// what they print (C19).
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/bytedance/mockey/zzverif/zz"
)

type child struct {
	name, path string
	supported  bool
}

// children are given as name=path,...; the names of those built as mockey asks for begin with "nl".
func children() (cs []child) {
	for _, s := range strings.Split(os.Getenv("ZZ_CHILDREN"), ",") {
		if i := strings.IndexByte(s, '='); i > 0 {
			cs = append(cs, child{s[:i], s[i+1:], strings.HasPrefix(s, "nl")})
		}
	}
	return
}

// noScopes are checks whose histories have no scopes: goconvey prints its own reports for scopes.
const noScopes = "C02,C06"

const unset = "(unset)"

var (
	checkVals = []string{unset, "", "true", "false", "0", "FALSE", "no", "1", " false"}
	debugVals = []string{unset, "", "true", "false", "1", "TRUE", "no", "0", "true "}
)

func (ch child) inlining(c *zz.Ctx) bool {
	cmd := exec.Command(ch.path, "probe")
	cmd.Env = append(os.Environ(), "MOCKEY_CHECK_GCFLAGS=false")
	err := cmd.Run()
	var ee *exec.ExitError
	if errors.As(err, &ee) && (ee.ExitCode() == 10 || ee.ExitCode() == 11) {
		return ee.ExitCode() == 10
	}
	c.Fail("%s: the probe fails: %v", ch.name, err)
	return false
}

func (ch child) run(c *zz.Ctx, check, debug string, quiet bool, part, parts int) {
	inl := ch.inlining(c)
	if c.Failed() {
		return
	}
	dir, err := os.MkdirTemp(".", "cfg")
	zz.Must(err)
	defer os.RemoveAll(dir)
	out := filepath.Join(dir, "out.json")
	cmd := exec.Command(ch.path, "-prop", "C19", "-tier", "mini", "-shard", fmt.Sprint(part), "-n", fmt.Sprint(parts), "-stdout", "-out", out)
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "MOCKEY_") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	if check != unset {
		cmd.Env = append(cmd.Env, "MOCKEY_CHECK_GCFLAGS="+check)
	}
	if debug != unset {
		cmd.Env = append(cmd.Env, "MOCKEY_DEBUG="+debug)
	}
	if quiet {
		cmd.Env = append(cmd.Env, "ZZ_ONLY="+noScopes)
	}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err = cmd.Run()
	var rep struct {
		Cases   int
		Failure *struct{ Text, Msg string }
	}
	b, _ := os.ReadFile(out)
	jerr := json.Unmarshal(b, &rep)
	c.Steps(rep.Cases)
	if ch.supported && (err != nil || jerr != nil) {
		c.Fail("the program fails: %v %v: %s", err, jerr, zz.Short(se.String()))
		return
	}
	if ch.supported && rep.Failure != nil {
		c.Fail("%s: %s", rep.Failure.Text, rep.Failure.Msg)
		return
	}
	warn := inl && check != "false"
	if got := strings.Contains(se.String(), "gcflags"); got != warn && (ch.supported || err == nil) {
		c.Fail("inlining %v: the compiler flag warning is printed: %v", inl, got)
		return
	}
	if !warn && ch.supported && se.Len() > 0 {
		c.Fail("on the standard error: %s", zz.Short(se.String()))
		return
	}
	if n := strings.Count(se.String(), "Mockey check failed"); warn && n != 1 && err == nil {
		c.Fail("the compiler flag warning is printed %d times", n)
		return
	}
	if debug != "true" && (quiet && so.Len() > 0 || strings.Contains(so.String(), "MOCKEY")) {
		c.Fail("debug output is not enabled, on the standard output: %s", zz.Short(so.String()))
		return
	}
	if debug == "true" && !strings.Contains(so.String(), "[MOCKEY]") {
		c.Fail("debug output is enabled, there is none")
		return
	}
	c.Outcome(fmt.Sprintf("inlining %v, warning %v, debug output %v", inl, warn, debug == "true"))
	c.State(zz.Hash(fmt.Sprint(ch.name, inl, check, debug, quiet, part)))
}

func gen(e *zz.Env, y func(zz.Case) bool) {
	parts, take := e.Pick(2000, 600, 200), e.Pick(2, 2, 8)
	for _, ch := range children() {
		for _, ck := range checkVals {
			for _, db := range debugVals {
				for p := 0; p < take; p++ {
					ch, ck, db, p := ch, ck, db, p
					quiet := p%2 == 0
					if !y(zz.Case{
						Text: func() string {
							return fmt.Sprintf("build %s, MOCKEY_CHECK_GCFLAGS %q, MOCKEY_DEBUG %q, no scopes %v, histories %d of %d", ch.name, ck, db, quiet, p/2, parts)
						},
						Run: func(c *zz.Ctx) { ch.run(c, ck, db, quiet, p/2, parts) },
					}) {
						return
					}
				}
			}
		}
	}
}

func main() {
	zz.Register("C19", zz.Suite{Name: "what is printed", Gen: gen, Bound: func(e *zz.Env) string {
		var names []string
		for _, ch := range children() {
			names = append(names, ch.name)
		}
		return fmt.Sprintf("builds %v x %d values of MOCKEY_CHECK_GCFLAGS x %d of MOCKEY_DEBUG, each with a part of the histories of the other checks", names, len(checkVals), len(debugVals))
	}})
	zz.Main()
}
