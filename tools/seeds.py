"""Planted bugs (source of /verif/seeded; development only)."""
SEEDS = []


def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


B = "_010_basic_portals/"
L = "_020_logging_portals/"
D = "_030_data_portals/"
O = "_040_ordinary_functions/"
S = "_050_safe_functions/"
A = "_060_autonomous_functions/"
F = "_070_pure_functions/"
W = "_090_swarming_portals/"
DL = "_100_default_local_portals/"
X = "_800_persidict_extensions/"
OM = "_810_output_manipulators/"
ST = "_820_strings_signatures_converters/"
HEAD = '''
import sys, os
tmp = sys.argv[1]
import pythagoras as pth
def d(n):
    p = os.path.join(tmp, n)
    os.makedirs(p, exist_ok=True)
    return p
'''

seed("b01-reentry", "C01", [(B + "foundation.py",
'''        if (len(BasicPortal.entered_portals_stack) == 0 or
                id(BasicPortal.entered_portals_stack[-1]) != id(self)):
''', '''        if not any(p is self for p in BasicPortal.entered_portals_stack):
''')], HEAD + '''
a, b = pth.BasicPortal(d("a")), pth.BasicPortal(d("b"))
with a:
    with b:
        with a:
            assert pth.BasicPortal.get_most_recently_entered_portal() is a, "a is not current"
        assert pth.BasicPortal.get_most_recently_entered_portal() is b
    assert pth.BasicPortal.get_most_recently_entered_portal() is a
assert pth.BasicPortal.get_most_recently_entered_portal() is None
''', "three nested blocks in which a portal is entered again inside another one",
"the inner block of a portal that is entered already, but not innermost, counts for the portal in between")

seed("b02-lost-race", "C10", [(X + "first_entry_dict.py",
'''            time.sleep(random.random()/random.randint(1,5))
            if key in self._wrapped_dict:
                check_needed = True
            else:
''', '''            time.sleep(random.random()/random.randint(1,5))
            if key not in self._wrapped_dict:
''')], HEAD + '''
from persidict import FileDirDict
from pythagoras._800_persidict_extensions.first_entry_dict import FirstEntryDict
class Racy(FileDirDict):
    racing = False
    def __setitem__(self, key, value):
        if self.racing:
            # another process is first
            self.racing = False
            super().__setitem__(key, "theirs")
        super().__setitem__(key, value)
w = Racy(base_dir=d("x"), immutable_items=True)
f = FirstEntryDict(w, 1)
w.racing = True
try:
    f["k"] = "ours"
except AssertionError:
    pass
else:
    raise SystemExit("a different value was accepted after a lost race: " + str(f["k"]))
assert f["k"] == "theirs"
''', "another process writes a different value between the look-up and the write (lost race), with consistency checks on",
"after a lost race the value is not compared with the stored one, so a conflicting write reports success")

seed("b03-copy-source", "C15", [(D + "value_addresses.py",
'''                with portal:
                    result = portal.value_store[self]
                with self.portal:
                    self.portal.value_store[self] = result
''', '''                with portal:
                    result = portal.value_store[self]
                with DataPortal.get_best_portal_to_use() as target:
                    target.value_store[self] = result
''')], HEAD + '''
p1, p2, p3 = (pth.DataPortal(d(n)) for n in "abc")
with p1:
    a = pth.ValueAddr(12345)
b = pth.ValueAddr.from_strings(prefix=a.prefix, hash_signature=a.hash_signature,
    assert_readiness=False, portal=p2)
with p3:
    assert b.get() == 12345
assert len(p2.value_store) == 1, "no copy in the address's own portal"
assert len(p3.value_store) == 0
''', "an address bound to one portal is read while another portal is entered and the value is only in a third one",
"the copy of a value found elsewhere goes to the current portal instead of the address's own")

seed("b04-crash-once", "C16", [(L + "logging_portals.py",
'''            for portal in LoggingPortal.get_entered_portals():
                portal.crash_history[full_path]''', '''            for portal in LoggingPortal.get_entered_portals()[:2]:
                portal.crash_history[full_path]''')], HEAD + '''
ps = [pth.LoggingPortal(d(n)) for n in "abc"]
try:
    with ps[0], ps[1], ps[2]:
        raise ValueError("x")
except ValueError:
    pass
assert [len(p.crash_history) for p in ps] == [1, 1, 1], [len(p.crash_history) for p in ps]
''', "three portals entered when the exception escapes",
"only two of the entered portals record an exception")

seed("b05-decorator-copy", "C21", [(O + "code_normalizer_implementation.py",
'''                , (ast.FunctionDef, ast.ClassDef
                   , ast.AsyncFunctionDef, ast.Module)):
''', '''                , (ast.FunctionDef, ast.ClassDef
                   , ast.AsyncFunctionDef, ast.Module, ast.With)):
''')], HEAD + '''
from pythagoras._040_ordinary_functions.code_normalizer_implementation import __get_normalized_function_source__ as norm
src = """
def f(lock):
    with lock:
        'a text'
        x = 'b text'
    return x
"""
assert "'a text'" in norm(src), norm(src)
''', "a with-statement that begins with a string expression",
"the first string expression of with-blocks is removed as if it were a docstring")

seed("b06-namespace", "C22", [(O + "ordinary_core_classes.py",
'''        names= dict(globals())
        names[self.fn_name] = self
''', '''        names= globals()
        names[self.fn_name] = self
''')], HEAD + '''
p = pth.OrdinaryCodePortal(d("a"))
with p:
    f = pth.OrdinaryFn("def sys(a): return a + 1")
    assert f(a=1) == 2
    g = pth.OrdinaryFn("def g(b): return 1 // b")
    try:
        g(b=0)
    except ZeroDivisionError:
        pass
    else:
        raise SystemExit("no exception")
import pythagoras._040_ordinary_functions.ordinary_core_classes as m
assert m.sys is sys, "the function replaced a module of the library"
''', "a function whose name is the name of something the library's module uses, followed by a failing function",
"functions run in the namespace of the library's own module and overwrite its names")

seed("b07-zero-timeout", "C32", [(F + "pure_core_classes.py",
'''            if timeout is not None:
                stop_time = start_time + timeout
''', '''            if timeout:
                stop_time = start_time + timeout
''')], HEAD + '''
import threading
p = pth.SwarmingPortal(d("a"), n_background_workers=0)
with p:
    @pth.pure()
    def f(x):
        return x
    a = f.get_address(x=1)
    got = []
    def ask():
        try:
            got.append(a.get(timeout=0))
        except TimeoutError:
            got.append("timeout")
    t = threading.Thread(target=ask, daemon=True)
    t.start()
    t.join(20)
os_exit = __import__("os")._exit
if got != ["timeout"]:
    print("get(timeout=0) did not end", got)
    os_exit(1)
os_exit(0)
''', "a timeout of exactly 0 and a result that is missing",
"a zero timeout is treated as no timeout: get() waits for ever")

seed("b08-request-dropped-early", "C31", [(F + "pure_core_classes.py",
'''                frame.register_execution_result(result_addr)
                try:
''', '''                frame.register_execution_result(result_addr)
                output_address.drop_execution_request()
                try:
'''), (F + "pure_core_classes.py",
'''                        p_consistency_checks)
                output_address.drop_execution_request()
                return result
''', '''                        p_consistency_checks)
                return result
''')], HEAD + '''
p = pth.SwarmingPortal(d("a"), n_background_workers=0)
with p:
    @pth.pure()
    def f(x):
        return x
    a = f.swarm(x=1)
    class Dying:
        def __init__(self, w): self.__dict__["w"] = w
        def __getattr__(self, n): return getattr(self.w, n)
        def __setattr__(self, n, v): setattr(self.w, n, v)
        def __contains__(self, k): return k in self.w
        def __getitem__(self, k): return self.w[k]
        def __setitem__(self, k, v): raise KeyboardInterrupt("killed here")
    p.execution_results = Dying(p.execution_results)
    try:
        f(x=1)
    except KeyboardInterrupt:
        pass
    assert a in p.execution_requests, "the request is lost although there is no result"
''', "an interruption between withdrawing the request and storing the result",
"the request is withdrawn before the result is stored: a crash in between loses the call")

seed("b09-newest-attempt", "C35", [(F + "pure_core_classes.py",
'''            most_recent_timestamp = max(
                past_attempts.timestamp(a) for a in past_attempts)
''', '''            most_recent_timestamp = min(
                past_attempts.timestamp(a) for a in past_attempts)
''')], HEAD + '''
import time
p = pth.SwarmingPortal(d("a"), n_background_workers=0)
with p:
    @pth.pure()
    def f(x):
        return x
    a = f.get_address(x=1)
    att = a.execution_attempts
    att["run1_a"] = {}
    assert not a.needs_execution, "an attempt was just made"
    real = type(att).timestamp
    att["run2_a"] = {}
    type(att).timestamp = lambda self, k: time.time() - (1000000 if "run1_a" in str(k) else 1)
    try:
        assert not a.needs_execution, "the newest attempt is a second old"
    finally:
        type(att).timestamp = real
''', "at least two attempts, the first of them long ago and the last one still running",
"the age of the oldest attempt decides, so calls in progress are executed again")

seed("b10-crash-outer-frame", "C33", [(F + "pure_core_classes.py",
'''        if len(self.call_stack) and data_to_persist is not None:
            current_frame = self.call_stack[-1]
''', '''        if len(self.call_stack) and data_to_persist is not None:
            current_frame = self.call_stack[0]
''')], HEAD + '''
p = pth.SwarmingPortal(d("a"), n_background_workers=0)
with p:
    @pth.pure()
    def f(n):
        if n == 0:
            raise ValueError("bottom")
        try:
            return f(n=n-1)
        except ValueError:
            return -1
    assert f(n=2) == -1
    assert len(f.get_address(n=0).crashes) == 1, "the crash of f(0) is not among its crashes"
    assert len(f.get_address(n=2).crashes) == 0, "f(2) did not crash"
''', "a pure function that fails in a recursive call",
"crashes of inner calls are filed under the outermost running call")

seed("b11-event-mixup", "C48", [(F + "pure_core_classes.py",
'''            for k in crashes:
                if self.session_id in k[-1]:
                    result.append(crashes[k])
''', '''            for k in sorted(crashes, reverse=True):
                if self.session_id in k[-1]:
                    result.append(crashes[k])
                    break
''')], HEAD + '''
p = pth.SwarmingPortal(d("a"), n_background_workers=0)
with p:
    @pth.pure()
    def f(x):
        return x
    a = f.get_address(x=1)
    a.execution_attempts["runabc_a"] = {"who": 1}
    a.crashes["ValueError_runabc_0"] = {"n": 0}
    a.crashes["ValueError_runabc_1"] = {"n": 1}
    r = [r for r in a.execution_records if r.session_id == "runabc"]
    assert len(r) == 1
    assert sorted(c["n"] for c in r[0].crashes) == [0, 1], r[0].crashes
''', "one execution with more than one recorded crash",
"the record of an execution gives only one of its crashes")

seed("b12-address-order", "C30", [(F + "kw_args.py",
'''            for k,v in self.items():
                packed_copy[k] = ValueAddr(v)
            return packed_copy''', '''            for k,v in self.items():
                packed_copy[k] = v if isinstance(v, (int, bool)) else ValueAddr(v)
            return packed_copy''')], HEAD + '''
p = pth.SwarmingPortal(d("a"), n_background_workers=0)
with p:
    @pth.pure()
    def f(x):
        return x
    a = f.get_address(x=1)
    from pythagoras import ValueAddr
    assert isinstance(a.arguments["x"], ValueAddr), "the address keeps a live argument"
    assert f.get_address(x=ValueAddr(1)) == a, "an argument given by its address makes another call"
''', "a small argument, given once as a value and once by its address",
"numbers are kept as live objects in addresses, so the same call gets two addresses")

seed("b13-island-kind", "C26", [(A + "autonomous_core_classes.py",
'''            assert type(self) == type(island[fn_name])
            self.update(island[fn_name])
            return
''', '''            if type(self) == type(island[fn_name]):
                self.update(island[fn_name])
                return
''')], HEAD + '''
import types
from pythagoras._060_autonomous_functions import autonomous_core_classes as m
p = pth.SwarmingPortal(d("a"), n_background_workers=0)
with p:
    f = pth.autonomous(island_name="I")("def f(): return 1")
    class MyFn(pth.AutonomousFn):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            self._begin_fn_registration()
    try:
        MyFn("def f(): return 1", island_name="I", strictly_autonomous=False)
    except AssertionError:
        pass
    assert p.known_functions["I"]["f"] is f, "the registered function was replaced by one of another kind"
''', "the same source and decorator text, but another kind of function",
"a function of another kind replaces the registered one instead of being refused")

seed("b14-clean-one-failure", "C37", [(W + "swarming_portals.py",
'''    for portal_id in BasicPortal.all_portals:
        try:
            portal = BasicPortal.all_portals[portal_id]
            with portal:
                portal.compute_nodes.pkl.delete_if_exists(address)
        except:
            pass''', '''    try:
        for portal_id in BasicPortal.all_portals:
            portal = BasicPortal.all_portals[portal_id]
            with portal:
                portal.compute_nodes.pkl.delete_if_exists(address)
    except:
        pass''')], HEAD + '''
import pythagoras._090_swarming_portals.swarming_portals as m
b = pth.BasicPortal(d("b"))
p = pth.SwarmingPortal(d("a"), n_background_workers=0)
assert p.parent_runtime_is_live()
m._clean_runtime_id()
assert not p.parent_runtime_is_live(), "the runtime id is still recorded after the end"
''', "a portal without compute nodes that was created before a swarming one",
"the first portal whose cleaning fails ends the cleaning of all others")

seed("b15-large-closure", "C27", [(A + "call_graph_explorer.py",
'''            if len(dependencies_new) == len(dependencies_old):
                break
''', '''            if len(dependencies_new) == len(dependencies_old):
                break
            if len(dependencies_new) > 24:
                break
''')], HEAD + '''
from pythagoras._060_autonomous_functions.call_graph_explorer import explore_call_graph_deep as ex
n = 300
g = ex([f"def f{i}(): return f{(i + 1) if i < n - 1 else i}()" for i in range(n)])
for k in range(n):
    assert g[f"f{k}"] == {f"f{i}" for i in range(k, n)}, (k, len(g[f"f{k}"]))
''', "a function that depends on more than two dozen others through a chain of calls",
"the search for dependencies gives up once two dozen functions were found")

seed("b16-suppressed-nested", "C39", [(OM + "output_suppressor.py",
'''        sys.stdout = self.old_stdout
        sys.stderr = self.old_stderr
''', '''        sys.stdout = sys.__stdout__ if self.old_stdout is self.old_stderr else self.old_stdout
        sys.stderr = self.old_stderr
''')], HEAD + '''
import io
from pythagoras._810_output_manipulators.output_suppressor import OutputSuppressor
s = io.StringIO()
o, e = sys.stdout, sys.stderr
try:
    sys.stdout = sys.stderr = s
    with OutputSuppressor():
        print("nothing")
    got = sys.stdout is s and sys.stderr is s
finally:
    sys.stdout, sys.stderr = o, e
assert got, "stdout is not what it was before the block"
''', "stdout and stderr being the same stream (nested suppressing, 2>&1 redirections in the program)",
"when both streams are the same object, stdout is reset to the process's stdout")

seed("b17-log-record-twice", "C38", [(OM + "output_capturer.py",
'''            msg = self.format(record)
            self.buffer.write(msg + '\\n')
''', '''            msg = self.format(record)
            if msg.strip() not in self.buffer.getvalue():
                self.buffer.write(msg + '\\n')
''')], HEAD + '''
import logging
from pythagoras._810_output_manipulators.output_capturer import OutputCapturer
logging.root.addHandler(logging.NullHandler())
c = OutputCapturer()
with c:
    logging.warning("retrying")
    print("x")
    logging.warning("retrying")
assert c.get_output() == "retrying\\nx\\nretrying\\n", repr(c.get_output())
''', "the same log message twice in one execution",
"repeated log lines are left out of the captured output")

seed("b18-one-prefix", "C23", [(L + "logging_portals.py",
'''        for prefix in exception_prefixes:
            full_path = prefix + [exception_id]
            for portal in LoggingPortal.get_entered_portals():
                portal.crash_history[full_path] = exception_data_to_persist
''', '''        portals = iter(LoggingPortal.get_entered_portals())
        for prefix in exception_prefixes:
            full_path = prefix + [exception_id]
            for portal in portals:
                portal.crash_history[full_path] = exception_data_to_persist
''')], HEAD + '''
p = pth.SwarmingPortal(d("a"), n_background_workers=0)
with p:
    @pth.ordinary()
    def f(x):
        return 1 / x
    try:
        f(x=0)
    except ZeroDivisionError:
        pass
    ks = list(p.crash_history)
    assert any("__CATCH_ALL__" in str(k) for k in ks), ks
    assert any("f_ORDINARY" in str(k) or "ORDINARY" in str(k) for k in ks), ks
    assert len(ks) == 2, ks
'''.replace("f_ORDINARY", "f_"), "a record that is filed under more than one prefix",
"only the first prefix of a crash record is written: the list of portals is exhausted afterwards")

PORTAL = HEAD + '''
p = pth.SwarmingPortal(d("a"), n_background_workers=0)
'''

seed("b19-passed-portal", "C03", [(D + "value_addresses.py",
'''        portal = DataPortal.get_best_portal_to_use(portal)

        with portal:
            if hasattr''', '''        portal = (DataPortal.get_most_recently_entered_portal()
            or DataPortal.get_best_portal_to_use(portal))

        with portal:
            if hasattr''')], PORTAL + '''
q = pth.SwarmingPortal(d("b"), n_background_workers=0)
a = pth.ValueAddr(1, portal=q)
assert a.portal is q and a in q.value_store
with p:
    a = pth.ValueAddr("other", portal=q)
    assert a.portal is q, "the portal that was passed is not used"
''', "a portal passed explicitly while another one is entered",
"the entered portal wins over the one passed explicitly")

seed("b20-entered-are-known", "C04", [(B + "foundation.py",
'''            current_portal_id = id(current_portal)
            result = [all_portals[portal_id] for portal_id in all_portals
                    if portal_id != current_portal_id]
''', '''            entered_ids = {id(p) for p in BasicPortal.entered_portals_stack}
            result = [all_portals[portal_id] for portal_id in all_portals
                    if portal_id not in entered_ids]
''')], PORTAL + '''
q = pth.SwarmingPortal(d("b"), n_background_workers=0)
with p:
    assert pth.SwarmingPortal.get_noncurrent_portals() == [q]
    with q:
        assert pth.SwarmingPortal.get_noncurrent_portals() == [p], "the outer portal is missing"
''', "nested blocks of different portals",
"portals that are entered but not current are left out of the non-current ones")

seed("b21-flag-of-subclass", "C05", [(L + "logging_portals.py",
'''            unregister_systemwide_uncaught_exception_handlers()
        LoggingPortal.exception_handlers_registered = False
''', '''            unregister_systemwide_uncaught_exception_handlers()
        cls.exception_handlers_registered = False
''')], HEAD + '''
hook = sys.excepthook
p = pth.SwarmingPortal(d("a"), n_background_workers=0)
assert sys.excepthook is not hook
pth.SwarmingPortal._clear_all()
assert sys.excepthook is hook
p = pth.SwarmingPortal(d("b"), n_background_workers=0)
assert sys.excepthook is not hook, "no handler after a reset"
''', "a reset through a subclass, then a new portal",
"the flag is reset on the subclass only, so handlers are never installed again")

seed("b22-pickled-readiness", "C07", [(D + "value_addresses.py",
'''        state = dict(str_chain=self.str_chain)
        return state

    def __setstate__(self, state):
        self.str_chain = state["str_chain"]
        self._portal = None
''', '''        state = dict(str_chain=self.str_chain)
        if hasattr(self, "_ready"):
            state["_ready"] = self._ready
        return state

    def __setstate__(self, state):
        self.__dict__.update(state)
        self._portal = None
''')], PORTAL + '''
import pickle
q = pth.SwarmingPortal(d("b"), n_background_workers=0)
with p:
    t = pickle.dumps(pth.ValueAddr([1, 2]))
del p.value_store
pth.BasicPortal.all_portals.pop(id(p))
with q:
    assert not pickle.loads(t).ready, "ready in a portal that has never seen the value"
''', "an address pickled in one place and loaded where the value does not exist",
"readiness is pickled with the address")

seed("b23-worker-params", "C08", [(W + "swarming_portals.py",
'''        params["n_background_workers"]=self.n_background_workers
        params["runtime_id"]=self.runtime_id
''', '''        params["n_background_workers"]=self.n_background_workers
        if self.n_background_workers > 0:
            params["runtime_id"]=self.runtime_id
''')], PORTAL + '''
assert p.get_params()["runtime_id"] == p.runtime_id
assert p.get_params()["n_background_workers"] == 0
''', "a portal without background workers",
"the runtime id is missing from the parameters of a portal without workers")

seed("b24-hash-only", "C12", [(D + "hash_addresses.py",
'''        return type(self) == type(other) and self.str_chain == other.str_chain
''', '''        return type(self) == type(other) and self.str_chain[-1] == other.str_chain[-1]
''')], PORTAL + '''
with p:
    a = pth.ValueAddr.from_strings(prefix="int", hash_signature="abc", assert_readiness=False)
    b = pth.ValueAddr.from_strings(prefix="str", hash_signature="abc", assert_readiness=False)
    assert a != b, "addresses with different texts are equal"
    assert a == pth.ValueAddr.from_strings(prefix="int", hash_signature="abc", assert_readiness=False)
''', "two addresses with the same hash and different prefixes",
"the prefix of an address is ignored in comparisons")

seed("b25-stored-or-not", "C13", [(D + "value_addresses.py",
'''        with portal:
            portal.value_store[self] = data
        self._value = data
''', '''        with portal:
            try:
                portal.value_store[self] = data
            except OSError: # e.g. the disk is full
                pass
        self._value = data
''')], PORTAL + '''
class Full:
    def __init__(self, w): self.w = w
    def __getattr__(self, n): return getattr(self.w, n)
    def __contains__(self, k): return k in self.w
    def __setitem__(self, k, v): raise OSError("disk full")
p.value_store = Full(p.value_store)
with p:
    try:
        a = pth.ValueAddr([1])
    except OSError:
        pass
    else:
        raise SystemExit("an address without a stored value")
''', "an error while the value is being written",
"an address is created although its value could not be stored")

seed("b26-message-list", "C18", [(L + "logging_portals.py",
'''            message_param_name = "message_list"
            message_param_name = LoggingPortal.make_unique_name(
                desired_name=message_param_name, existing_names=kwargs)
            kwargs[message_param_name] = args
''', '''            message_param_name = "message_list"
            kwargs[message_param_name] = args
''')], HEAD + '''
r = pth.LoggingPortal.add_execution_environment_summary("m", message_list="mine") if hasattr(pth, "LoggingPortal") else None
if r is None:
    from pythagoras._020_logging_portals.logging_portals import LoggingPortal
    r = LoggingPortal.add_execution_environment_summary("m", message_list="mine")
assert r["message_list"] == "mine", "the caller's item is lost"
assert ("m",) in r.values()
''', "an event with positional messages and an item named message_list",
"the messages replace the caller's item of the same name")

seed("b27-none-arguments", "C20", [(O + "ordinary_core_classes.py",
'''        return self.execute(**kwargs)


    def _available''', '''        return self.execute(**{k:v for k,v in kwargs.items() if v is not None})


    def _available''')], PORTAL + '''
with p:
    @pth.ordinary()
    def f(x=5):
        return x
    assert f(x=1) == 1 and f() == 5
    assert f(x=None) is None, "an argument was dropped"
''', "an argument that is None, for a parameter with another default",
"arguments that are None are dropped")

seed("b28-kept-namespace", "C22", [(O + "ordinary_core_classes.py",
'''        names= dict(globals())
        names[self.fn_name] = self
''', '''        if hasattr(self, "_names"):
            return self._names
        names = self._names = dict(globals())
        names[self.fn_name] = self
''')], PORTAL + '''
with p:
    @pth.ordinary()
    def f(n):
        global seen_before
        try:
            seen_before += 1
        except NameError:
            seen_before = 0
        return seen_before
    assert [f(n=1), f(n=1)] == [0, 0], "executions share a namespace"
''', "two executions of a function that uses a global name",
"the namespace of the first execution is used again by the following ones")

seed("b29-interrupts", "C23", [(O + "ordinary_core_classes.py",
'''            return result
        except:
            exc_type, exc_value, trace_back = sys.exc_info()
''', '''            return result
        except Exception:
            exc_type, exc_value, trace_back = sys.exc_info()
''')], PORTAL + '''
with p:
    @pth.ordinary()
    def f(x):
        raise KeyboardInterrupt("stop")
    try:
        f(x=1)
    except KeyboardInterrupt:
        pass
    assert any("f_ORD" in str(tuple(k)) for k in p.crash_history), "an interrupt was not recorded"
''', "an execution that ends by an interrupt",
"only exceptions, no interrupts, are recorded for the function")

seed("b30-global-names", "C25", [(A + "autonomous_core_classes.py",
'''        import_required = analyzer.names.explicitly_global_unbound_deep
        import_required |= analyzer.names.unclassified_deep
''', '''        import_required = (analyzer.names.explicitly_global_unbound_deep
            or analyzer.names.unclassified_deep)
''')], PORTAL + '''
with p:
    f = pth.autonomous()("def f(x):\\n    global len\\n    return len(outer_thing) + x")
    try:
        f(x=1)
    except AssertionError:
        pass
    except NameError:
        raise SystemExit("a function that is not self-contained was run")
''', "a function that declares a harmless global name and uses another one without declaring it",
"undeclared outside names are not looked at if a function declares any global name")

seed("b32-reused-frame", "C34", [(F + "pure_core_classes.py",
'''            "An instance of PureFnExecutionFrame can be used only once.")
        self.context_used = True
        assert self.exception_counter == 0, (
''', '''            "An instance of PureFnExecutionFrame can be used only once.")
        self.context_used = self.fn.call_stack.count(self) > 0
        assert self.exception_counter == 0, (
''')], PORTAL + '''
from pythagoras._070_pure_functions.pure_core_classes import PureFnExecutionFrame
with p:
    @pth.pure()
    def f(x):
        return x
    f(x=2)
    fr = PureFnExecutionFrame(f.get_address(x=1))
    with fr:
        pass
    try:
        with fr:
            pass
    except AssertionError:
        pass
    except Exception as e:
        raise SystemExit("a second use got as far as " + repr(e))
    else:
        raise SystemExit("a frame was used twice")
    assert len(f.call_stack) == 0
''', "a frame that is used again after it was left",
"frames can be entered a second time")

seed("b33-impatient-worker", "C36", [(W + "swarming_portals.py",
'''                p.start()
                p.join()
                portal._randomly''', '''                p.start()
                p.join(timeout=1.0)
                portal._randomly''')], HEAD + '''
import pythagoras._090_swarming_portals.swarming_portals as m
running, most = [0], [0]
class Proc:
    def __init__(self, target, kwargs): pass
    def start(self):
        running[0] += 1
        most[0] = max(most[0], running[0])
    def join(self, timeout=None):
        if timeout is None:
            running[0] -= 1
    def is_alive(self): return True
class Ctx:
    Process = Proc
m.get_context = lambda kind: Ctx
p = pth.SwarmingPortal(d("a"), n_background_workers=0)
n = [0]
def live(self):
    n[0] += 1
    return n[0] < 4
m.SwarmingPortal.parent_runtime_is_live = live
m.SwarmingPortal._randomly_delay_execution = lambda self, *a, **k: None
m.parameterizable.get_object_from_portable_params = lambda q: p
m._background_worker()
assert most[0] == 1, "a worker runs several requests at once"
''', "a request that takes longer than a second",
"a worker does not wait for a request that takes long and starts the next one")

seed("b34-tampered-code", "C43", [(F + "pure_core_classes.py",
'''            else:
                assert state["augmented_fn_source_code"] == (
                    island[fn_name]._augmented_source_code)
''', '''            elif island[fn_name]._augmented_source_code is None:
                island[fn_name]._augmented_source_code = (
                    state["augmented_fn_source_code"])
''')], PORTAL + '''
with p:
    @pth.autonomous()
    def helper(x):
        return x + 1
    @pth.pure()
    def f(x):
        return helper(x=x)
    assert f(x=1) == 2
    s = f.__getstate__()
    s["augmented_fn_source_code"] = s["augmented_fn_source_code"].replace("x + 1", "x + 2")
    g = f.__new__(type(f))
    try:
        g.__setstate__(s)
    except AssertionError:
        pass
    else:
        raise SystemExit("different code was accepted")
''', "a stored function whose dependencies differ from those known here",
"code of a stored function that differs from the registered one is not refused")

seed("b35-shuffled-results", "C46", [(F + "pure_core_classes.py",
'''            addrs_workspace = copy(addrs)
''', '''            addrs_workspace = addrs
''')], PORTAL + '''
with p:
    @pth.pure()
    def f(x):
        return x
    for i in range(5):
        k = [dict(x=n) for n in range(20)]
        assert [a.get() for a in f.run_list(k)] == list(range(20)), "results in another order"
''', "several sets of arguments (the order is random)",
"run_list returns the addresses in the order they were processed")

seed("b36-check-leaves-trace", "C47", [(F + "pure_core_classes.py",
'''                except:
                    raise # TODO: raise a proper exception here
                finally:
                    portal.execution_results''', '''                except:
                    raise # TODO: raise a proper exception here
                else:
                    portal.execution_results''')], HEAD + '''
p = pth.SwarmingPortal(d("a"), n_background_workers=0, p_consistency_checks=0.999999)
with p:
    @pth.pure()
    def f(x):
        import random
        return random.random()
    f(x=1)
    try:
        f(x=1)
    except AssertionError:
        pass
    assert p.execution_results._p_consistency_checks == 0.999999, p.execution_results._p_consistency_checks
''', "a consistency check that finds a difference",
"after a failed consistency check every later write is checked")

seed("b37-no-import", "C49", [(S + "package_manager.py",
'''    importlib.import_module(package_name)

def uninstall''', '''    if not upgrade:
        importlib.import_module(package_name)

def uninstall''')], HEAD + '''
import pythagoras._050_safe_functions.package_manager as m
calls = []
m.subprocess.run = lambda cmd, **k: calls.append(cmd)
for up in (False, True):
    try:
        m.install_package("no_such_package_xyz", upgrade=up)
    except ImportError:
        pass
    else:
        raise SystemExit("a package that can not be imported counts as installed")
''', "upgrading a package that can not be imported afterwards",
"upgraded packages are not imported, so a broken one is not reported")

seed("b38-describe-kinds", "C50", [("_110_top_level_API/top_level_API.py",
'''    if len(BasicPortal.all_portals) == 1:
''', '''    if len({p.root_dict.base_dir for p in BasicPortal.all_portals.values()}) == 1:
''')], PORTAL + '''
n1 = len(pth.describe())
q = pth.SwarmingPortal(d("a"), n_background_workers=0)
t = pth.describe()
assert len(t) == 2 * n1, "a portal is missing from the description"
''', "two portals in the same directory",
"portals in the same directory are described as one")

seed("b39-tester-exception", "C52", [(B + "portal_tester.py",
'''        if self.portal_class is not None:
            self.portal.__exit__(exc_type, exc_val, exc_tb)
            self._portal = None

        if self.portal_class is not None:
            self.portal_class._clear_all()
''', '''        if self.portal_class is not None:
            self.portal.__exit__(exc_type, exc_val, exc_tb)
            self._portal = None

        if self.portal_class is not None and exc_type is None:
            self.portal_class._clear_all()
''')], HEAD + '''
from pythagoras._010_basic_portals.portal_tester import _PortalTester
hook = sys.excepthook
try:
    with _PortalTester(pth.SwarmingPortal, root_dict=d("a"), n_background_workers=0):
        raise ValueError("x")
except ValueError:
    pass
assert not pth.BasicPortal.all_portals
assert sys.excepthook is hook, "the handlers of the tested portal are still installed"
''', "an exception in the block, and state kept by more specific kinds of portals",
"after an exception only the basic state is cleared")

seed("b40-cached-summary", "C54", [(L + "execution_environment_summary.py",
'''def build_execution_environment_summary()-> Dict:
''', '''def build_execution_environment_summary(cwd:str = os.getcwd())-> Dict:
'''), (L + "execution_environment_summary.py", '''    cwd = os.getcwd()

''', '')], HEAD + '''
from pythagoras._020_logging_portals.execution_environment_summary import build_execution_environment_summary as b
os.chdir(d("x"))
assert b()["working_directory"] == os.getcwd(), "the summary tells another directory"
''', "a program that changes its working directory",
"the working directory is the one the library was imported in")

# ---------------------------------------------------------------- b41..
seed("b41-copy-portal", "C55", [(D + "value_addresses.py",
'''            , portal=self.portal
            , assert_readiness=False)''', '''            , assert_readiness=False)''')], PORTAL + '''
from copy import copy
q = pth.SwarmingPortal(d("b"), n_background_workers=0)
with p:
    a = pth.ValueAddr(12345)
with q:
    b = copy(a)
assert b == a and b.portal is p, "the copy belongs to another portal"
''', "copying an address while another portal is current",
"a copy of an address belongs to the current portal instead of the original's")

seed("b42-typed-none", "C55", [(D + "value_addresses.py",
'''        assert isinstance(result, expected_type)
''', '''        assert result is None or isinstance(result, expected_type)
''')], PORTAL + '''
with p:
    a = pth.ValueAddr(None)
    try:
        a.get_typed(int)
    except Exception:
        pass
    else:
        raise SystemExit("None was given where an int was expected")
    assert pth.ValueAddr(3).get_typed(int) == 3
''', "a stored None", "a typed read returns None whatever type is expected")

seed("b43-multi-type", "C56", [(X + "overlapping_multi_dict.py",
'''                **{**shared_subdicts_params
                ,**individual_subdicts_params[subdict_name]
                ,"file_type":subdict_name})''', '''                **{"file_type":subdict_name
                ,**shared_subdicts_params
                ,**individual_subdicts_params[subdict_name]})''')], HEAD + '''
from persidict import FileDirDict
from pythagoras._800_persidict_extensions.overlapping_multi_dict import OverlappingMultiDict
m = OverlappingMultiDict(FileDirDict, dict(FileDirDict(d("m")).get_params(), file_type="pkl"), json={}, pkl={})
assert m.json.file_type == "json", "the json dictionary has another file type"
assert m.pkl.file_type == "pkl"
''', "shared parameters taken from another dictionary, file type included",
"the shared parameters replace the file type of every part")

seed("b44-percent", "C56", [(X + "first_entry_dict.py",
'''        assert p_consistency_checks is None or (0 <= p_consistency_checks <= 1)
''', '''        assert not p_consistency_checks or p_consistency_checks > 0
''')], HEAD + '''
from persidict import FileDirDict
from pythagoras._800_persidict_extensions.first_entry_dict import FirstEntryDict
w = FileDirDict(d("m"), immutable_items=True)
for good in (None, 0, 0.5, 1):
    FirstEntryDict(w, good)
for bad in (-1, 1.5, 50):
    try:
        FirstEntryDict(w, bad)
    except Exception:
        continue
    raise SystemExit(f"{bad} is accepted as a probability")
''', "a probability above one", "percentages are accepted as probabilities")

seed("b45-hasher-by-type", "C57", [(ST + "hash_signatures.py",
'''    if 'numpy' in sys.modules:
''', '''    if type(x).__module__.split('.')[0] == 'numpy':
''')], HEAD + '''
import numpy as np, joblib
from pythagoras._820_strings_signatures_converters.hash_signatures import get_base16_hash_signature as h
for x in (np.arange(6).reshape(2, 3), [np.arange(6).reshape(2, 3)], dict(a=np.arange(3))):
    assert h(x) == joblib.hashing.NumpyHasher(hash_name="sha256").hash(x), f"{type(x)} is hashed in another way"
''', "arrays inside of containers", "arrays inside of lists and dictionaries are not hashed as arrays")

seed("b46-set-as-list", "C57", [(D + "hash_addresses.py",
'''        raw_hash_signature = get_hash_signature(x)
''', '''        raw_hash_signature = get_hash_signature(
            list(x) if isinstance(x, (set, frozenset)) else x)
''')], PORTAL + '''
s = frozenset(["alpha", "beta", "gamma", "delta"])
with p:
    a = pth.ValueAddr(s)
assert a.hash_signature == "len_4_" + pth.get_hash_signature(s), "the signature is that of something else"
''', "a value that is a set", "sets are addressed by the order of their elements in this process")

seed("b47-broken-pipe", "C02", [(OM + "output_suppressor.py",
'''        if self.devnull:
            self.devnull.close()''', '''        if self.devnull:
            self.devnull.close()
        return exc_type is not None and issubclass(exc_type, BrokenPipeError)''')], HEAD + '''
from pythagoras._810_output_manipulators.output_suppressor import OutputSuppressor
for e in (ValueError, BrokenPipeError, KeyboardInterrupt):
    try:
        with OutputSuppressor():
            raise e()
    except e:
        pass
    else:
        raise SystemExit(f"{e} was swallowed")
''', "a broken pipe in a block whose output is suppressed",
"a broken pipe inside of the block never leaves it")

seed("b48-pickle-cleared", "C06", [(B + "foundation.py",
'''    def __getstate__(self):
        raise NotAllowedError("Portal objects cannot be pickled.")
''', '''    def __getstate__(self):
        if id(self) not in BasicPortal.all_portals:
            return {}
        raise NotAllowedError("Portal objects cannot be pickled.")
''')], PORTAL + '''
import pickle
from pythagoras._010_basic_portals.exceptions import NotAllowedError
for step in range(2):
    try:
        pickle.dumps(p)
    except NotAllowedError:
        pass
    else:
        raise SystemExit("a portal was pickled")
    pth.SwarmingPortal._clear_all()
''', "a portal that was forgotten by a reset", "portals can be pickled after a reset")

seed("b49-mutable-events", "C09", [(L + "logging_portals.py",
'''            dict(file_type="json", immutable_items=True, digest_len=0))
        self.event_log =''', '''            dict(file_type="json", digest_len=0))
        self.event_log =''')], PORTAL + '''
with p:
    pth.LoggingPortal.log_event("e1", a=1)
    key = [k for k in p.event_log.keys()][0]
    first = p.event_log[key]["a"]
    try:
        pth.LoggingPortal.log_event("e1", a=2)
    except Exception:
        pass
    assert p.event_log[key]["a"] == first == 1, "a recorded event was replaced"
''', "two events with the same id on one day", "an event replaces an earlier one with the same id")

seed("b50-signature-cache", "C11", [(ST + "hash_signatures.py",
'''def get_hash_signature(x:Any) -> str:
    return get_base32_hash_signature(x)[:max_signature_length]
''', '''_small_signatures: dict = {}

def get_hash_signature(x:Any) -> str:
    if isinstance(x, (int, float, str)):
        if x not in _small_signatures:
            _small_signatures[x] = get_base32_hash_signature(x)[:max_signature_length]
        return _small_signatures[x]
    return get_base32_hash_signature(x)[:max_signature_length]
''')], HEAD + '''
want = pth.get_base32_hash_signature(1.0)[:22]
pth.get_hash_signature(1)
assert pth.get_hash_signature(1.0) == want, "the address of 1.0 depends on what was addressed before"
''', "equal numbers of different types", "the address of a number depends on which equal number was addressed first")

seed("b53-helper-cells", "C19", [(O + "assert_ordinarity.py",
'''                and a_func.__closure__ is not None), (''', '''                and a_func.__closure__ is not None
                and not all(callable(c.cell_contents) for c in a_func.__closure__)), (''')], PORTAL + '''
from pythagoras._040_ordinary_functions.assert_ordinarity import assert_ordinarity
def outer():
    def x():
        return 1
    def inner(y):
        return x() + y
    return inner
try:
    assert_ordinarity(outer())
except Exception:
    pass
else:
    raise SystemExit("a closure is admitted")
''', "a closure over nothing but functions", "closures over helper functions are admitted")

seed("b54-yield-from", "C24", [(A + "names_usage_analyzer.py",
'''    def visit_YieldFrom(self, node):
        self.n_yelds += 1
        self.generic_visit(node)

''', '')], HEAD + '''
from pythagoras._060_autonomous_functions.names_usage_analyzer import analyze_names_in_function as a
assert a("def f(x):\\n    yield x\\n")["analyzer"].n_yelds == 1
assert a("def f(x):\\n    yield from x\\n")["analyzer"].n_yelds == 1, "yield from is not counted"
''', "a function whose only yield is a yield from", "yield from is not counted as a yield")

seed("b55-never-is-never", "C28", [(F + "pure_core_classes.py",
'''                if p_consistency_checks in [None,0]:
                    return output_address.get()
                if not random_x < p_consistency_checks:
''', '''                if p_consistency_checks is None:
                    return output_address.get()
                if random_x > p_consistency_checks:
''')], PORTAL + '''
@pth.pure()
def f(x):
    import builtins
    builtins.n_runs = getattr(builtins, "n_runs", 0) + 1
    return x
with p:
    f(x=1)
    class R:
        def random(self): return 0.0
        def __getattr__(self, n): raise AttributeError(n)
    pth.LoggingPortal.entropy_infuser, old = R(), pth.LoggingPortal.entropy_infuser
    f(x=1)
    pth.LoggingPortal.entropy_infuser = old
import builtins
assert builtins.n_runs == 1, "a check was conducted with probability zero"
''', "a random number that is exactly zero", "with a probability of zero a check can still be due")

seed("b56-case", "C40", [(ST + "base_16_32_convertors.py",
'''    digest = digest.lower()
    num = 0
    for char in digest:
        num = num * 32 + base32_alphabet_map[char]
    return num
''', '''    return int(digest.strip() or "0", 32)
''')], HEAD + '''
from pythagoras._820_strings_signatures_converters.base_16_32_convertors import convert_base_32_to_int as c
assert c("10v") == c("10V") == 1024 + 31
for bad in ("1_0", "-1", " 1", "1 ", "w"):
    try:
        c(bad)
    except Exception:
        continue
    raise SystemExit(f"{bad!r} is read as a number")
''', "a text with an underscore, a sign or a blank", "texts with other characters are read as numbers")

seed("b57-last-digits", "C41", [(ST + "random_signatures.py",
'''    return random_str[:max_signature_length]
''', '''    return random_str[-max_signature_length:]
''')], HEAD + '''
import uuid
from pythagoras._820_strings_signatures_converters import random_signatures as m
from pythagoras._820_strings_signatures_converters.base_16_32_convertors import convert_int_to_base32
u = uuid.UUID("12345678123446789abcdef012345678")
m.uuid.uuid4, old = (lambda: u), uuid.uuid4
try:
    s = m.get_random_signature()
finally:
    m.uuid.uuid4 = old
assert s == convert_int_to_base32(u.int)[:22], "not the first digits of the UUID"
''', "always: signatures contain the fixed version digits", "the signature is made of the last digits of the UUID")

seed("b58-local-date", "C42", [(ST + "current_date_gmt_str.py",
'''    utc_now = datetime.now(timezone.utc)
''', '''    utc_now = datetime.now().astimezone()
''')], HEAD + '''
import time, datetime
from pythagoras._820_strings_signatures_converters.current_date_gmt_str import current_date_gmt_string as c
now = datetime.datetime.now(datetime.timezone.utc)
os.environ["TZ"] = "AAA-14" if now.hour >= 11 else "AAA+12"
time.tzset()
want = {datetime.datetime.now(datetime.timezone.utc).strftime("%Y_%m%b_%d_utc") for _ in range(2)}
got = c()
want.add(datetime.datetime.now(datetime.timezone.utc).strftime("%Y_%m%b_%d_utc"))
assert got in want, "the date is that of the local time zone"
''', "a local time zone in which it is another day", "the date is the local one")

seed("b59-evaluated", "C44", [(F + "astkeywords_dict_convertors.py",
'''        value = ast.literal_eval(keyword.value)
''', '''        try:
            value = ast.literal_eval(keyword.value)
        except ValueError:
            value = eval(ast.unparse(keyword.value))
''')], PORTAL + '''
from pythagoras._070_pure_functions.process_augmented_func_src import process_augmented_func_src as proc
import builtins
builtins.touched = []
with p:
    try:
        proc("@pth.autonomous(island_name=(touched.append(1), 'Samos')[1])\\ndef f():\\n    return 1\\n", p)
    except Exception:
        pass
assert not builtins.touched, "code of a stored decorator was evaluated"
''', "a stored decorator whose parameter is no literal", "parameters of stored decorators that are no literals are evaluated")

seed("b60-default-again", "C45", [("_100_default_local_portals/default_local_portal.py",
'''        cls._default_local_portal_instance = None
        cls._calls_counter = 0
''', '''        cls._default_local_portal_instance = None
''')], HEAD + '''
from pythagoras._090_swarming_portals.swarming_portals import SwarmingPortal
calls = []
SwarmingPortal.__init__ = lambda self, **k: calls.append(k)
a = pth.DefaultLocalPortal()
assert pth.DefaultLocalPortal() is a and len(calls) == 1
pth.DefaultLocalPortal._clear_all()
b = pth.DefaultLocalPortal()
assert b is not a and len(calls) == 2, "the new default portal was never set up"
''', "using the default portal again after a reset", "after a reset the default portal is not set up again")

seed("b61-today", "C51", [(L + "logging_portals.py",
'''    def describe(self) -> pd.DataFrame:
        """Get a DataFrame describing the portal's current state"""
        all_params = [super().describe()]
        all_excpt_path = ("__CATCH_ALL__",)
        todays_excpt_path = ("__CATCH_ALL__", current_date_gmt_string())
''', '''    def describe(self, today:str = current_date_gmt_string()) -> pd.DataFrame:
        """Get a DataFrame describing the portal's current state"""
        all_params = [super().describe()]
        all_excpt_path = ("__CATCH_ALL__",)
        todays_excpt_path = ("__CATCH_ALL__", today)
''')], PORTAL + '''
import pythagoras._020_logging_portals.logging_portals as m
m.current_date_gmt_string = lambda: "2031_02Feb_03_utc"
try:
    with p:
        raise ValueError("x")
except ValueError:
    pass
t = p.describe()
row = t[t.apply(lambda r: any("today" in str(v) for v in r), axis=1)]
assert 1 in list(row.iloc[0]), "the exception of today is not counted"
''', "a program that runs past midnight", "the exceptions counted as today's are those of the day the library was imported")

seed("b62-empty-island", "C53", [(A + "autonomous_decorators.py",
'''        assert isinstance(island_name, str) or island_name is None
        self.island_name = island_name
        self.strictly_autonomous = strictly_autonomous
''', '''        assert isinstance(island_name, str) or not island_name
        self.island_name = island_name
        self.strictly_autonomous = strictly_autonomous
''')], PORTAL + '''
with p:
    for bad in (0, [], False, ()):
        try:
            pth.autonomous(island_name=bad)
        except Exception:
            continue
        raise SystemExit(f"{bad!r} is accepted as the name of an island")
''', "something empty that is no text as the name of an island", "empty things that are no texts are accepted as island names")
