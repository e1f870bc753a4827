#!/usr/bin/env python3
"""Generate a `go build -overlay` file that turns the Go 1.25 standard library into a
deterministic simulation substrate.  usage: gen.py GOROOT OUTDIR

Nothing under GOROOT or /repo is written: patched copies go to OUTDIR and overlay.json maps the
originals to them.  Every patch asserts that its anchor text exists exactly once, so a toolchain
change fails loudly instead of silently losing determinism.
"""
import json, os, sys

goroot, out = sys.argv[1], sys.argv[2]
src = os.path.join(goroot, "src")
here = os.path.dirname(os.path.abspath(__file__))
repl = {}


def load(rel):
    with open(os.path.join(src, rel)) as f:
        return f.read()


def save(rel, text):
    p = os.path.join(out, rel.replace("/", "__"))
    os.makedirs(out, exist_ok=True)
    old = None
    if os.path.exists(p):
        with open(p) as f:
            old = f.read()
    if old != text:
        with open(p, "w") as f:
            f.write(text)
    repl[os.path.join(src, rel)] = p


def patch(rel, *subs):
    t = load(rel)
    for a, b in subs:
        n = t.count(a)
        if n != 1:
            sys.exit(f"overlay: anchor in {rel} found {n} times: {a[:80]!r}")
        t = t.replace(a, b)
    save(rel, t)


# ---- runtime: one P, no sysmon, seeded run queue, virtual time jumps, seeded rand ----------
patch("runtime/proc.go",
      ('const haveSysmon = GOARCH != "wasm"', "const haveSysmon = false"),
      ("\t\tprocs = defaultGOMAXPROCS(numCPUStartup)", "\t\tprocs = 1"),
      ("""	next := pp.runnext
	// If the runnext is non-0 and the CAS fails, it could only have been stolen by another P,
	// because other Ps can race to set runnext to 0, but only the current P can set it to non-0.
	// Hence, there's no need to retry this CAS if it fails.
	if next != 0 && pp.runnext.cas(next, 0) {
		return next.ptr(), true
	}
""", """	if simSchedOn {
		return simRunqget(pp)
	}
	next := pp.runnext
	if next != 0 && pp.runnext.cas(next, 0) {
		return next.ptr(), true
	}
"""),
      ("""	// Before we drop our P, make a snapshot of the allp slice,
""", """	// sim: single P, nothing runnable: jump virtual time to the next timer.
	if simSchedOn && !sched.gcwaiting.Load() && pp.runSafePointFn == 0 && sched.runq.empty() {
		if simTimeJump(pp) {
			goto top
		}
	}

	// Before we drop our P, make a snapshot of the allp slice,
"""),
      ("\t\t\tnewg.labels = mp.curg.labels\n", "\t\t\tnewg.labels = mp.curg.labels\n\t\t\tnewg.simTag = mp.curg.simTag\n"),
      ("	gp.labels = nil\n", "	gp.labels = nil\n	gp.simTag = 0\n"),
      )
patch("runtime/runtime2.go",
      ("	labels          unsafe.Pointer // profiler labels\n",
       "	labels          unsafe.Pointer // profiler labels\n	simTag          uintptr\n"))
patch("runtime/panic.go",
      ("	preprintpanics(&p)\n\n	fatalpanic(&p)   // should not return\n",
       "	if SimPanic != nil {\n		SimPanic(p.arg)\n	}\n	preprintpanics(&p)\n\n	fatalpanic(&p)   // should not return\n"))
patch("runtime/rand.go",
      ("""	seed := &globalRand.seed
	if len(startupRand) >= 16 &&""", """	seed := &globalRand.seed
	for i := range seed {
		seed[i] = byte(i*7 + 1)
	}
	startupRand = nil
	if true {
	} else if len(startupRand) >= 16 &&"""),
      ("""	mp := getg().m
	c := &mp.chacha8
	for {""", """	if simSchedOn {
		return simRand64()
	}
	mp := getg().m
	c := &mp.chacha8
	for {"""),
      # threads come and go with real time: they must not draw from the program's stream
      ("	mp.cheaprand = rand()\n", "	mp.cheaprand = 0x9e3779b97f4a7c15\n"))
patch("runtime/select.go",
      ("		j := cheaprandn(uint32(norder + 1))\n",
       "		var j uint32\n		if simSchedOn {\n			j = simSchedn(uint32(norder + 1))\n		} else {\n			j = cheaprandn(uint32(norder + 1))\n		}\n"))
# timers due at the same instant fire in an order of their own, whatever the heap's layout
patch("runtime/time.go",
      ("			t.rand = cheaprand()\n		}\n", "			t.rand = cheaprand()\n		} else if t.rand == 0 && (mp.curg == nil || !simSystem(mp.curg)) {\n			simTimerSeq++\n			t.rand = simTimerRand()\n		}\n"))
patch("runtime/time_fake.go",
      ("	if !(fd == 1 || fd == 2) {\n", "	if true {\n"),
      ("var faketime int64 = 1257894000000000000", "var faketime int64 = 1700000000000000000"))
save("runtime/sim.go", open(os.path.join(here, "runtime_sim.go.txt")).read())
repl[os.path.join(src, "runtime/sim.go")] = os.path.join(out, "runtime__sim.go")

# ---- os: file operation hooks and exit hook -------------------------------------------------
patch("os/file.go",
      ("	testlog.Open(name)\n	f, err := openFileNolog(name, flag, perm)\n",
       "	testlog.Open(name)\n	if SimFS != nil {\n		if err := SimFS(SimOpen, name, \"\", flag, nil, nil); err != nil {\n			return nil, &PathError{Op: \"open\", Path: name, Err: err}\n		}\n	}\n	f, err := openFileNolog(name, flag, perm)\n"),
      ("	f.appendMode = flag&O_APPEND != 0\n\n	return f, nil\n",
       "	f.appendMode = flag&O_APPEND != 0\n	if SimFS != nil {\n		SimFS(SimOpened, name, \"\", flag, f, nil)\n	}\n	return f, nil\n"),
      ("""	n, e := f.write(b)
	if n < 0 {
		n = 0
	}
	if n != len(b) {
		err = io.ErrShortWrite
	}

	epipecheck(f, e)
""", """	var simErr error
	full := len(b)
	if SimFS != nil {
		simErr = SimFS(SimWrite, f.name, "", 0, f, &b)
	}
	n, e := f.write(b)
	if n < 0 {
		n = 0
	}
	if simErr != nil && e == nil {
		return n, &PathError{Op: "write", Path: f.name, Err: simErr}
	}
	if n != full {
		err = io.ErrShortWrite
	}

	epipecheck(f, e)
"""),
      ("""	if err := f.checkValid("read"); err != nil {
		return 0, err
	}
	n, e := f.read(b)
""", """	if err := f.checkValid("read"); err != nil {
		return 0, err
	}
	if SimFS != nil {
		if err := SimFS(SimRead, f.name, "", 0, f, nil); err != nil {
			return 0, &PathError{Op: "read", Path: f.name, Err: err}
		}
	}
	n, e := f.read(b)
"""),
      ("""	return rename(oldpath, newpath)
""", """	if SimFS != nil {
		if err := SimFS(SimRename, oldpath, newpath, 0, nil, nil); err != nil {
			return &LinkError{"rename", oldpath, newpath, err}
		}
	}
	err := rename(oldpath, newpath)
	if SimFS != nil && err == nil {
		SimFS(SimRenamed, oldpath, newpath, 0, nil, nil)
	}
	return err
"""))
patch("os/file_posix.go",
      ("""	if err := f.checkValid("sync"); err != nil {
		return err
	}
""", """	if err := f.checkValid("sync"); err != nil {
		return err
	}
	if SimFS != nil {
		if err := SimFS(SimSync, f.name, "", 0, f, nil); err != nil {
			return &PathError{Op: "sync", Path: f.name, Err: err}
		}
		return nil
	}
"""))
patch("os/proc.go",
      ("func Exit(code int) {\n", "func Exit(code int) {\n	if SimExit != nil {\n		SimExit(code)\n	}\n"))
save("os/sim.go", """package os

// Simulation hooks, nil outside simulations.

const (
	SimOpen = iota + 1
	SimOpened
	SimWrite
	SimSync
	SimRename
	SimRenamed
	SimRead
)

// SimFS is called before (and for open/rename also after) file operations.
var SimFS func(op int, path, newpath string, flag int, f *File, data *[]byte) error

// SimExit is called by Exit.
var SimExit func(code int)
""")

# ---- net: every outgoing connection goes through the simulator ------------------------------
patch("net/dial.go",
      ("""	if ctx == nil {
		panic("nil context")
	}
	deadline := d.deadline(ctx, time.Now())
	if !deadline.IsZero() {
		testHookStepTime()
""", """	if ctx == nil {
		panic("nil context")
	}
	if SimDial != nil {
		return SimDial(ctx, network, address)
	}
	deadline := d.deadline(ctx, time.Now())
	if !deadline.IsZero() {
		testHookStepTime()
"""))
save("net/sim.go", """package net

import "context"

// SimDial replaces Dialer.DialContext in simulations.
var SimDial func(ctx context.Context, network, address string) (Conn, error)
""")

# ---- crypto randomness ---------------------------------------------------------------------
patch("crypto/internal/sysrand/rand.go",
      ("func Read(b []byte) {\n", "func Read(b []byte) {\n	if simRead(b) {\n		return\n	}\n"))
save("crypto/internal/sysrand/sim.go", """package sysrand

import _ "unsafe"

// simCryptoRead is runtime.simCryptoRead, pushed via linkname.
//
//go:linkname simCryptoRead
func simCryptoRead(b []byte)

func simRead(b []byte) bool {
	simCryptoRead(b)
	return true
}
""")

with open(os.path.join(out, "overlay.json.tmp"), "w") as f:
    json.dump({"Replace": repl}, f, indent=1)
os.replace(os.path.join(out, "overlay.json.tmp"), os.path.join(out, "overlay.json"))
