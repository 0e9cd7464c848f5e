// Package clara builds the real compiler, compiles probe programs with it, executes the emitted
// machine code symbolically and replays counterexamples natively.
package clara

import (
	"bytes"
	"context"
	_ "embed"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"verif/engine/x86"
)

//go:embed vharness.c.txt
var harnessC string

//go:embed vstub.c.txt
var stubC string

// Prelude declares the harness's external functions.
const Prelude = `
#[RawValues]
fn vxInt(k: int) int
#[RawValues]
fn vxRange(k: int, lo: int, hi: int) int
#[RawValues]
fn vxBool(k: int) bool
#[RawValues]
fn vxAssume(c: bool) nothing
#[RawValues]
fn vxFill(s: string, k: int, n: int) nothing
#[RawValues]
fn vxObs(k: int, v: int) nothing
#[RawValues]
fn vxObsB(k: int, v: bool) nothing
#[RawValues]
fn vxObsStr(k: int, s: string) nothing
#[RawValues]
fn vxObsBytes(k: int, b: bytes) nothing
#[RawValues]
fn vxLive() int
`

// Env is a scratch area with the built compiler.
type Env struct {
	Dir     string
	Repo    string
	Clarac  string
	Install string
	CS      []x86.Source // C runtime as assembly
	CFiles  []string
	HarnO   string
	n       int
	mu      sync.Mutex
}

func run(timeout time.Duration, dir string, env []string, name string, args ...string) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = dir
	if env != nil {
		cmd.Env = env
	}
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.WaitDelay = 2 * time.Second
	err := cmd.Run()
	if ctx.Err() != nil {
		return out.String(), fmt.Errorf("timeout")
	}
	return out.String(), err
}

// Setup builds the compiler from the working tree of repo.
func Setup(repo string) (*Env, error) {
	dir, err := os.MkdirTemp("", "vx-clara-")
	if err != nil {
		return nil, err
	}
	e := &Env{Dir: dir, Repo: repo, Clarac: filepath.Join(dir, "clarac"), Install: filepath.Join(dir, "install")}
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local")
	if out, err := run(300*time.Second, repo, env, "go", "build", "-buildvcs=false", "-o", e.Clarac, "."); err != nil {
		e.Close()
		return nil, fmt.Errorf("building the compiler: %v\n%s", err, out)
	}
	os.MkdirAll(filepath.Join(e.Install, "init"), 0o755)
	os.MkdirAll(filepath.Join(e.Install, "lib"), 0o755)
	lib, _ := filepath.Glob(filepath.Join(repo, "install/lib/*.clara"))
	for _, f := range lib {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		os.WriteFile(filepath.Join(e.Install, "lib", filepath.Base(f)), b, 0o644)
	}
	cs, _ := filepath.Glob(filepath.Join(repo, "install/init/*"))
	for _, f := range cs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		os.WriteFile(filepath.Join(e.Install, "init", filepath.Base(f)), b, 0o644)
	}
	for _, f := range cs {
		dst := filepath.Join(e.Install, "init", filepath.Base(f))
		if strings.HasSuffix(f, ".c") {
			e.CFiles = append(e.CFiles, dst)
			sf := filepath.Join(dir, filepath.Base(f)+".s")
			if out, err := run(60*time.Second, dir, nil, "gcc", "-O0", "-S", "-fno-pie", "-fno-asynchronous-unwind-tables", "-fcf-protection=none", "-fno-stack-protector", "-mno-sse", "-I", filepath.Join(e.Install, "init"), "-o", sf, dst); err != nil {
				return nil, fmt.Errorf("compiling %s: %v\n%s", f, err, out)
			}
			b, _ := os.ReadFile(sf)
			e.CS = append(e.CS, x86.Source{Name: filepath.Base(f), Text: string(b)})
		}
	}
	os.WriteFile(filepath.Join(e.Install, "init", "zz_vstub.c"), []byte(stubC), 0o644)
	os.WriteFile(filepath.Join(dir, "vharness.c"), []byte(harnessC), 0o644)
	e.HarnO = filepath.Join(dir, "vharness.o")
	if out, err := run(60*time.Second, dir, nil, "gcc", "-O0", "-w", "-fno-omit-frame-pointer", "-fno-stack-protector", "-fno-pie", "-c", "-o", e.HarnO, filepath.Join(dir, "vharness.c")); err != nil {
		return nil, fmt.Errorf("compiling the harness: %v\n%s", err, out)
	}
	return e, nil
}

func (e *Env) Close() { os.RemoveAll(e.Dir) }

// Result of compiling a program.
type Compiled struct {
	Dir, S   string
	Src      string
	Rejected bool   // the compiler reported errors
	Crashed  bool   // the compiler died
	Hung     bool   // no answer in time
	Link     bool   // assembling or linking the output failed
	Out      string // what the compiler printed
	env      *Env
	bin      string
	mu       sync.Mutex
}

func (c *Compiled) OK() bool { return !c.Rejected && !c.Crashed && !c.Hung && !c.Link }

// Compile runs the real compiler on a program.
func (e *Env) Compile(src string) *Compiled {
	e.mu.Lock()
	e.n++
	d := filepath.Join(e.Dir, fmt.Sprintf("p%d", e.n))
	e.mu.Unlock()
	os.MkdirAll(d, 0o755)
	c := &Compiled{Dir: d, S: filepath.Join(d, "prog.S"), Src: src, env: e}
	f := filepath.Join(d, "prog.clara")
	os.WriteFile(f, []byte(src), 0o644)
	env := append(os.Environ(), "TMPDIR="+d)
	out, err := run(60*time.Second, d, env, e.Clarac, "-install", e.Install, "-prog", f, "-out", d)
	c.Out = out
	if err != nil {
		switch {
		case err.Error() == "timeout":
			c.Hung = true
		case strings.Contains(out, "goroutine ") && (strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:")):
			c.Crashed = true
		case strings.Contains(out, "Link failure"):
			c.Link = true
		default:
			c.Rejected = true
		}
	} else if _, err := os.Stat(c.S); err != nil {
		c.Crashed = true
		c.Out += "\nno assembly produced"
	}
	return c
}

// Prog assembles the emitted code together with the C runtime.
func (c *Compiled) Prog() (*x86.Prog, error) {
	b, err := os.ReadFile(c.S)
	if err != nil {
		return nil, err
	}
	srcs := []x86.Source{{Name: "prog.S", Text: string(b)}}
	srcs = append(srcs, c.env.CS...)
	return x86.Assemble(srcs, "debug")
}

var wraps = []string{"calloc", "free", "exit", "printf", "open", "lseek", "read", "gettimeofday"}

// Link builds the native replay binary.
func (c *Compiled) link() (string, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.bin != "" {
		return c.bin, nil
	}
	bin := filepath.Join(c.Dir, "replay")
	args := []string{"-fno-pie", "-no-pie", "-o", bin, c.S}
	args = append(args, c.env.CFiles...)
	args = append(args, c.env.HarnO)
	for _, w := range wraps {
		args = append(args, "-Wl,--wrap="+w)
	}
	if out, err := run(60*time.Second, c.Dir, nil, "gcc", args...); err != nil {
		return "", fmt.Errorf("linking the replay: %v\n%s", err, out)
	}
	c.bin = bin
	return bin, nil
}
