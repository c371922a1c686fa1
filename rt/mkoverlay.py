#!/usr/bin/env python3
"""Generates the overlay for the deterministic Go runtime.
usage: mkoverlay.py GOROOT OUTDIR  -> OUTDIR/rt_overlay.json
Fails loudly when a patch does not apply exactly once."""
import sys, os, json
goroot, out = sys.argv[1], sys.argv[2]
here = os.path.dirname(os.path.abspath(__file__))
os.makedirs(out, exist_ok=True)
rep = {}
def src(rel): return os.path.join(goroot, "src", rel)
def emit(rel, text):
    dst = os.path.join(out, rel.replace("/", "__"))
    with open(dst, "w") as f: f.write(text)
    rep[src(rel)] = dst
def patch(rel, *subs):
    t = open(src(rel)).read()
    for old, new in subs:
        c = t.count(old)
        if c != 1:
            sys.exit("mkoverlay: %s: pattern found %d times: %r" % (rel, c, old))
        t = t.replace(old, new)
    emit(rel, t)

emit("runtime/simsched.go", open(os.path.join(here, "sim_runtime.go.txt")).read())
emit("runtime/time_fake.go", open(os.path.join(here, "time_fake.go.txt")).read())
patch("runtime/proc.go",
  ('const haveSysmon = GOARCH != "wasm"', 'const haveSysmon = false'),
  ("\tif pp.runSafePointFn != 0 {\n\t\trunSafePointFn()\n\t}\n\n\t// now and pollUntil are saved",
   "\tif pp.runSafePointFn != 0 {\n\t\trunSafePointFn()\n\t}\n\n\tif sim.active {\n\t\treturn simPick(pp), false, false\n\t}\n\n\t// now and pollUntil are saved"),
  ("\tnewg.parentGoid = callergp.goid\n", "\tnewg.parentGoid = callergp.goid\n\tnewg.simNode = callergp.simNode\n"),
)
patch("runtime/runtime2.go",
  ("\tditWanted       bool // set if g wants to be executed with DIT enabled\n", "\tditWanted       bool // set if g wants to be executed with DIT enabled\n\tsimNode         int32\n"),
)
patch("runtime/time.go",
  ("\tisSending atomic.Int32\n}", "\tisSending atomic.Int32\n\n\tsimNode int32\n}"),
  ("\tt := new(timeTimer)\n\tt.timer.init(nil, nil)\n", "\tt := new(timeTimer)\n\tt.timer.init(nil, nil)\n\tt.simNode = getg().simNode\n"),
  ("\tf(arg, seq, delay)\n\n\tif t.isChan {", "\tg0sim := getg()\n\tg0node := g0sim.simNode\n\tg0sim.simNode = t.simNode\n\tf(arg, seq, delay)\n\tg0sim.simNode = g0node\n\n\tif t.isChan {"),
)
patch("runtime/chan.go",
  ("func chansend1(c *hchan, elem unsafe.Pointer) {\n", "func chansend1(c *hchan, elem unsafe.Pointer) {\n\tSimYield()\n"),
  ("func chanrecv1(c *hchan, elem unsafe.Pointer) {\n", "func chanrecv1(c *hchan, elem unsafe.Pointer) {\n\tSimYield()\n"),
  ("func chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {\n", "func chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {\n\tSimYield()\n"),
  ("func selectnbsend(c *hchan, elem unsafe.Pointer) (selected bool) {\n", "func selectnbsend(c *hchan, elem unsafe.Pointer) (selected bool) {\n\tSimYield()\n"),
  ("func selectnbrecv(elem unsafe.Pointer, c *hchan) (selected, received bool) {\n", "func selectnbrecv(elem unsafe.Pointer, c *hchan) (selected, received bool) {\n\tSimYield()\n"),
  ("func closechan(c *hchan) {\n", "func closechan(c *hchan) {\n\tSimYield()\n"),
)
patch("runtime/select.go",
  ("func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n",
   "func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n\tSimYield()\n"),
)
patch("runtime/panic.go",
  ("\tvar docrash bool\n\t// Switch to the system stack to avoid any stack growth, which\n",
   "\tvar docrash bool\n\tif sim.active && gp.simNode != 0 {\n\t\tsimNodePanic(msgs)\n\t}\n\t// Switch to the system stack to avoid any stack growth, which\n"),
)
patch("runtime/rand.go",
  ("func rand() uint64 {\n", "func rand() uint64 {\n\tif sim.active {\n\t\treturn simRand()\n\t}\n\tif true { // the same for all that is made before the start\n\t\treturn 0x9e3779b97f4a7c15\n\t}\n"),
  ("func cheaprand() uint32 {\n", "func cheaprand() uint32 {\n\tif sim.active {\n\t\treturn uint32(simRand())\n\t}\n"),
  ("func cheaprandu64() uint64 {\n", "func cheaprandu64() uint64 {\n\tif sim.active {\n\t\treturn simRand()\n\t}\n"),
  ("\tseed := &globalRand.seed\n", "\tseed := &globalRand.seed\n\tif len(startupRand) > 0 {\n\t\tfor i := range startupRand {\n\t\t\tstartupRand[i] = byte(i*37 + 11)\n\t\t}\n\t}\n"),
)
patch("runtime/debug.go", ("\treturn int(numCPUStartup)\n", "\treturn 4\n"))
patch("internal/sync/runtime.go",
  ("func runtime_nanotime() int64\n", "func runtime_nanotime() int64\n\n//go:linkname runtime_simYield\nfunc runtime_simYield()\n"))
patch("internal/sync/mutex.go",
  ("func (m *Mutex) Lock() {\n", "func (m *Mutex) Lock() {\n\truntime_simYield()\n"),
  ("\t\tm.unlockSlow(new)\n\t}\n}\n", "\t\tm.unlockSlow(new)\n\t}\n\truntime_simYield()\n}\n"),
)
t = open(src("sync/runtime.go")).read() + "\n//go:linkname runtime_simYield\nfunc runtime_simYield()\n"
emit("sync/runtime.go", t)
patch("sync/rwmutex.go",
  ("func (rw *RWMutex) RLock() {\n", "func (rw *RWMutex) RLock() {\n\truntime_simYield()\n"),
  ("func (rw *RWMutex) RUnlock() {\n", "func (rw *RWMutex) RUnlock() {\n\truntime_simYield()\n"),
)
patch("os/signal/signal.go",
  ("func Reset(sig ...os.Signal) {\n", "func Reset(sig ...os.Signal) {\n\tif SimHook != nil && SimHook(1, nil, sig) {\n\t\treturn\n\t}\n"),
  ("func Notify(c chan<- os.Signal, sig ...os.Signal) {\n", "// SimHook, when set, stands in for the operating system (0: Notify, 1: Reset, 2: Stop).\nvar SimHook func(op int, c chan<- os.Signal, sig []os.Signal) bool\n\nfunc Notify(c chan<- os.Signal, sig ...os.Signal) {\n\tif SimHook != nil && SimHook(0, c, sig) {\n\t\treturn\n\t}\n"),
  ("func Stop(c chan<- os.Signal) {\n", "func Stop(c chan<- os.Signal) {\n\tif SimHook != nil && SimHook(2, c, nil) {\n\t\treturn\n\t}\n"),
)
patch("crypto/internal/sysrand/rand.go",
  ("func warnBlocked() {", "//go:linkname simRead runtime.simSysRand\nfunc simRead(b []byte) bool\n\nfunc warnBlocked() {"),
  ("func Read(b []byte) {\n", "func Read(b []byte) {\n\tif simRead(b) {\n\t\treturn\n\t}\n"),
)
json.dump({"Replace": rep}, open(os.path.join(out, "rt_overlay.json"), "w"), indent=1)
