"""The planted bugs: edits of /repo and the demonstration of each."""
SEEDS = {}


def seed(name, prop, needs, breaks, edits, demo, **kw):
    SEEDS[name] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw)


seed("b01_eval_silent", "C01",
     "an evaluation request that names a breakpoint scope and a symbol that does not exist there",
     "the request is never answered: the client waits forever",
     [("src/debug.cc",
       '            error_reason = "Unable to resolve symbols";\n'
       '            send_error(req, error_reason, conn_id);\n',
       '            error_reason = "Unable to resolve symbols";\n'
       '            log_error(error_reason);\n')],
     r'''
int main(int, char **argv) {
    Rig r;
    r.load(std::string(argv[1]) + "/t.json");
    auto s = r.request(R"({"request":true,"type":"evaluation","token":"t",
        "payload":{"scope":"","expression":"nope + 1","breakpoint_id":1}})");
    EXPECT(s.size() == 1);
    _exit(0);
}
''')

RACE = r'''
template <typename A, typename B>
void race(A a, B b, int n = 2000) {
    std::atomic<int> go = 0;
    std::thread t1([&] { go++; while (go < 2) {} for (int i = 0; i < n; i++) a(); });
    std::thread t2([&] { go++; while (go < 2) {} for (int i = 0; i < n; i++) b(); });
    t1.join();
    t2.join();
}
'''

seed("b07_clear_data_unlocked", "C07",
     "a data breakpoint 'clear' request that arrives while the simulation thread evaluates",
     "the breakpoint list is changed without the lock while the simulator thread walks it",
     [("src/scheduler.cc",
       "void Scheduler::clear_data_breakpoints() {\n"
       "    std::lock_guard guard(breakpoint_lock_);\n",
       "void Scheduler::clear_data_breakpoints() {\n")],
     RACE + r'''
int main(int, char **argv) {
    Rig r;
    r.load(std::string(argv[1]) + "/t.json");
    r.request(R"({"request":true,"type":"breakpoint","payload":{"action":"add","filename":"f.cc","line_num":2}})");
    auto *s = r.dbg->scheduler();
    race([&] { s->clear_data_breakpoints(); },
         [&] { s->set_evaluation_mode(hgdb::Scheduler::EvaluationMode::StepOver);
               s->set_evaluation_mode(hgdb::Scheduler::EvaluationMode::BreakPointOnly);
               auto bps = s->next_breakpoints();
               r.request(R"({"request":true,"type":"breakpoint","payload":{"action":"add","filename":"f.cc","line_num":4}})");
               r.request(R"({"request":true,"type":"breakpoint","payload":{"action":"remove","filename":"f.cc","line_num":4}})");
         }, 300);
    _exit(0);
}
''', san="thread")

seed("b08_stop_unlocked", "C08",
     "the debugger stops while another thread sends a message",
     "the connection table is cleared without its lock while a sender walks it",
     [("src/server.cc",
       '        }\n        connections_.clear();\n        connection_id_map_.clear();\n    }\n'
       '    server_.stop();\n',
       '        }\n    }\n    connections_.clear();\n    connection_id_map_.clear();\n'
       '    server_.stop();\n')],
     RACE + r'''
int main(int, char **argv) {
    hgdb::DebugServer s;
    race([&] { s.stop(); }, [&] { s.send("x"); s.send("y", 1); });
    _exit(0);
}
''', san="thread", rig_send=False)

seed("b09_type_cache_unlocked", "C09",
     "two breakpoint evaluation threads ask for the type of signals at the same time",
     "the cache of signal types is filled by two threads without its lock",
     [("src/rtl.cc",
       "    std::lock_guard guard(cached_vpi_types_lock_);\n", "")],
     RACE + r'''
int main(int, char **argv) {
    Rig r;
    auto *rtl = r.dbg->namespaces_.default_rtl();
    race([&] { rtl->get_vpi_type(r.a); }, [&] { rtl->get_vpi_type(r.b); });
    _exit(0);
}
''', san="thread")

seed("b10_remove_data_deadlock", "C10",
     "a request that removes a data breakpoint",
     "the server thread takes the breakpoint lock twice and hangs with it held",
     [("src/scheduler.cc",
       "    auto ptr = remove_breakpoint(bp_id, DebugBreakPoint::Type::data);\n"
       "    if (!ptr) return std::nullopt;\n",
       "    auto *current = get_breakpoint(bp_id);\n"
       "    if (!current) return std::nullopt;\n"
       "    auto ptr = remove_breakpoint(bp_id, DebugBreakPoint::Type::data);\n"
       "    if (!ptr) return std::nullopt;\n")],
     r'''
int main(int, char **argv) {
    Rig r;
    r.load(std::string(argv[1]) + "/t.json");
    r.dbg->scheduler()->remove_data_breakpoint(2);
    _exit(0);
}
''')

seed("b05_line_optional", "C05",
     "a request to add a breakpoint that has no line number",
     "the malformed request is accepted and becomes a breakpoint on every line of the file",
     [("src/proto.cc",
       "    bool line_num_required = bp_action_ == action::add;\n",
       "    bool line_num_required = bp_action_ == action::add && document.HasMember(\"line_num\");\n")],
     r'''
int main(int, char **) {
    auto req = hgdb::Request::parse_request(
        R"({"request":true,"type":"breakpoint","payload":{"action":"add","filename":"f.cc"}})");
    EXPECT(req->status() == hgdb::status_code::error);
    auto ok = hgdb::Request::parse_request(
        R"({"request":true,"type":"breakpoint","payload":{"action":"remove","filename":"f.cc"}})");
    EXPECT(ok->status() == hgdb::status_code::success);
    _exit(0);
}
''')

seed("b02_mapping_broadcast", "C02",
     "a path mapping request that succeeds while another client is connected",
     "its response is sent to every client instead of the one that asked",
     [("src/debug.cc",
       "        db_->set_src_mapping(req.path_mapping());\n"
       "        auto resp = GenericResponse(status_code::success, req);\n"
       "        send_message(resp.str(log_enabled_), conn_id);\n",
       "        db_->set_src_mapping(req.path_mapping());\n"
       "        auto resp = GenericResponse(status_code::success, req);\n"
       "        send_message(resp.str(log_enabled_));\n")],
     r'''
int main(int, char **argv) {
    Rig r;
    r.load(std::string(argv[1]) + "/t.json");
    for (auto const &m : {R"({"request":true,"type":"path-mapping","token":"t","payload":{"path-mapping":{"a":"b"}}})",
                          R"({"request":true,"type":"option-change","token":"t","payload":{}})"}) {
        auto s = r.request(m, 7);
        EXPECT(s.size() == 1);
        EXPECT(s[0].conn == 7);
    }
    _exit(0);
}
''')

seed("b03_jump_success", "C03",
     "a jump request on a simulator that cannot rewind, with a symbol table loaded",
     "the client is told that the simulation went back in time although it did not",
     [("src/debug.cc",
       "            if (!res) {\n                status = status_code::error;\n"
       "                error = \"Underlying",
       "            if (!res) {\n                if (!scheduler_) status = status_code::error;\n"
       "                error = \"Underlying")],
     r'''
int main(int, char **argv) {
    Rig r;
    r.load(std::string(argv[1]) + "/t.json");
    r.vpi->set_rewind_enabled(false);
    auto s = r.request(R"({"request":true,"type":"command","payload":{"command":"jump","time":1}})");
    EXPECT(s.size() == 1);
    EXPECT(s[0].msg.find("\"error\"") != std::string::npos);
    _exit(0);
}
''', rig_send=True)

seed("b06_remove_first", "C06",
     "a line with several breakpoints (statements or instances), removed by location",
     "only one of the breakpoints inserted at the line is removed; the others keep pausing",
     [("src/debug.cc",
       "        for (auto const &bp : bps) {\n"
       "            scheduler_->remove_breakpoint(bp, DebugBreakPoint::Type::normal);\n"
       "        }\n",
       "        if (!bps.empty()) {\n"
       "            scheduler_->remove_breakpoint(bps.front(), DebugBreakPoint::Type::normal);\n"
       "        }\n")],
     r'''
int main(int, char **argv) {
    symbol_table = R"({"generator": "demo", "top": "mod", "table": [
    {"type": "module", "name": "mod", "scope": [
      {"type": "block", "filename": "f.cc", "scope": [
         {"type": "none", "line": 2, "column": 1}, {"type": "none", "line": 2, "column": 9}]}],
     "instances": [], "variables": [{"name": "a", "value": "a", "rtl": true}]}]})";
    Rig r;
    r.load(std::string(argv[1]) + "/t.json");
    r.request(R"({"request":true,"type":"breakpoint","payload":{"action":"add","filename":"f.cc","line_num":2}})");
    EXPECT(r.dbg->scheduler()->breakpoints_.size() == 2);
    r.request(R"({"request":true,"type":"breakpoint","payload":{"action":"remove","filename":"f.cc","line_num":2}})");
    EXPECT(r.dbg->scheduler()->breakpoints_.empty());
    _exit(0);
}
''')

seed("b15_trigger_skipped", "C15",
     "a breakpoint with a trigger whose condition is false while the trigger signal changes, and "
     "true when the signal changes back",
     "the change is not noticed: the breakpoint stays silent although its trigger changed since "
     "the last evaluation",
     [("src/debug.cc",
       "        auto trigger_result = should_trigger(bp);\n",
       "        auto trigger_result = eval_result && should_trigger(bp);\n")],
     r'''
int main(int, char **argv) {
    Rig r;
    r.load(std::string(argv[1]) + "/t.json");
    r.request(R"({"request":true,"type":"breakpoint","payload":{"action":"add","filename":"f.cc","line_num":2,"condition":"b"}})");
    EXPECT(r.dbg->scheduler()->breakpoints_.size() == 1);
    auto *bp = r.dbg->scheduler()->breakpoints_[0].get();
    bp->trigger_symbols["a"] = r.a;
    auto eval = [&](int a, int b) {
        r.vpi->set_signal_value(r.a, a);
        r.vpi->set_signal_value(r.b, b);
        r.dbg->start_breakpoint_evaluation();
        return r.dbg->eval_breakpoint(bp);
    };
    EXPECT(eval(1, 1));
    EXPECT(!eval(1, 1));
    EXPECT(!eval(2, 0));
    EXPECT(eval(1, 1));
    _exit(0);
}
''')

seed("b16_set_keeps_cache", "C16",
     "the value cache turned on, a value set through a name relative to a breakpoint after it has "
     "been evaluated in the same cycle",
     "the breakpoint is evaluated with the value from before it was set",
     [("src/debug.cc",
       "                auto *handle = rtl->get_handle(*full_name);\n",
       "                auto *handle = rtl->get_handle(req.var_name());\n")],
     r'''
int main(int, char **argv) {
    Rig r;
    r.load(std::string(argv[1]) + "/t.json");
    r.dbg->use_signal_cache_ = true;
    r.request(R"({"request":true,"type":"breakpoint","payload":{"action":"add","filename":"f.cc","line_num":2,"condition":"a == 5"}})");
    EXPECT(r.dbg->scheduler()->breakpoints_.size() == 1);
    auto *bp = r.dbg->scheduler()->breakpoints_[0].get();
    r.dbg->start_breakpoint_evaluation();
    EXPECT(!r.dbg->eval_breakpoint(bp));
    auto s = r.request(R"({"request":true,"type":"set-value","payload":{"var_name":"a","value":5,"breakpoint_id":)" +
                       std::to_string(bp->id) + "}}");
    EXPECT(s.size() == 1);
    EXPECT(s[0].msg.find("\"success\"") != std::string::npos);
    EXPECT(r.dbg->eval_breakpoint(bp));
    _exit(0);
}
''', rig_send=True)

SAME_LINE = r'''
static std::string table_with(const std::string &stmts) {
    return R"({"generator": "demo", "top": "mod", "table": [
      {"type": "module", "name": "mod",
       "scope": [{"type": "block", "filename": "f.cc", "scope": [)" + stmts + R"(]}],
       "instances": [{"name": "c1", "module": "child"}, {"name": "c2", "module": "child2"}],
       "variables": []},
      {"type": "module", "name": "child",
       "scope": [{"type": "block", "filename": "f.cc", "scope": [{"type": "none", "line": 7, "column": 1}]}],
       "instances": [], "variables": []},
      {"type": "module", "name": "child2",
       "scope": [{"type": "block", "filename": "f.cc", "scope": [{"type": "none", "line": 7, "column": 9}]}],
       "instances": [], "variables": []}
    ]})";
}
'''

seed("b17_same_line", "C17",
     "two instances with statements on the same line of the same file, in different columns (e.g. "
     "from a macro or a generator that writes everything on one line)",
     "the two statements are taken for one: both are evaluated and reported in one stop",
     [("src/scheduler.cc",
       "        if (next_bp->line_num != ref_bp->line_num || next_bp->filename != ref_bp->filename ||\n"
       "            next_bp->column_num != ref_bp->column_num) {\n",
       "        if (next_bp->line_num != ref_bp->line_num || next_bp->filename != ref_bp->filename) {\n")],
     SAME_LINE + r'''
int main(int, char **argv) {
    auto text = table_with(R"({"type": "none", "line": 2})");
    symbol_table = text.c_str();
    Rig r;
    r.vpi->add_module("child", "top.dut.c1");
    r.vpi->add_module("child2", "top.dut.c2");
    r.load(std::string(argv[1]) + "/t.json");
    r.request(R"({"request":true,"type":"breakpoint","payload":{"action":"add","filename":"f.cc","line_num":7}})");
    auto &s = *r.dbg->scheduler();
    EXPECT(s.breakpoints_.size() == 2);
    s.start_breakpoint_evaluation();
    s.set_evaluation_mode(hgdb::Scheduler::EvaluationMode::BreakPointOnly);
    auto first = s.next_breakpoints();
    EXPECT(first.size() == 1);
    auto second = s.next_breakpoints();
    EXPECT(second.size() == 1);
    EXPECT(first[0]->column_num != second[0]->column_num);
    _exit(0);
}
''')

seed("b17_evaluated_first", "C17",
     "a stop at one breakpoint, then a breakpoint inserted before it while paused, with a further "
     "breakpoint after it",
     "after the new breakpoint the one already visited in this cycle is visited again",
     [("src/scheduler.cc",
       "        if (breakpoints_[i]->evaluated) {\n            pos = i;\n        }\n",
       "        if (!breakpoints_[i]->evaluated) break;\n        pos = i;\n")],
     r'''
int main(int, char **argv) {
    Rig r;
    r.load(std::string(argv[1]) + "/t.json");
    auto add = [&](int line) {
        r.request(R"({"request":true,"type":"breakpoint","payload":{"action":"add","filename":"f.cc","line_num":)" +
                  std::to_string(line) + "}}");
    };
    auto &s = *r.dbg->scheduler();
    add(3);
    add(5);
    s.start_breakpoint_evaluation();
    s.set_evaluation_mode(hgdb::Scheduler::EvaluationMode::BreakPointOnly);
    auto bps = s.next_breakpoints();
    EXPECT(bps.size() == 1 && bps[0]->line_num == 3);
    add(2);
    bps = s.next_breakpoints();
    EXPECT(bps.size() == 1 && bps[0]->line_num == 5);
    EXPECT(s.next_breakpoints().empty());
    _exit(0);
}
''')

seed("b20_id_reused", "C20",
     "two watched variables, the first removed, then a third added",
     "the third variable gets the id of the second one and is never watched",
     [("src/monitor.cc",
       "    watched_variables_.emplace(watch_id_count_, std::move(w));\n"
       "    return watch_id_count_++;\n",
       "    watch_id_count_ = watched_variables_.size();\n"
       "    watched_variables_.emplace(watch_id_count_, std::move(w));\n"
       "    return watch_id_count_;\n")],
     r'''
int main(int, char **argv) {
    Rig r;
    r.load(std::string(argv[1]) + "/t.json");
    auto &m = *r.dbg->namespaces_[0]->monitor;
    using T = hgdb::MonitorRequest::MonitorType;
    auto const &rtl = r.dbg->namespaces_[0]->rtl;
    auto a = m.add_monitor_variable(rtl->get_full_name("mod.a"), T::clock_edge);
    auto b = m.add_monitor_variable(rtl->get_full_name("mod.b"), T::clock_edge);
    EXPECT(a != b);
    m.remove_monitor_variable(a);
    auto c = m.add_monitor_variable(rtl->get_full_name("mod.a"), T::clock_edge);
    EXPECT(c != b);
    EXPECT(m.get_watched_values(T::clock_edge).size() == 2);
    _exit(0);
}
''', rig_send=True)

seed("b20_delay_gap", "C20",
     "a variable with a delay of two cycles whose signal cannot be read in one cycle (e.g. it has "
     "unknown bits)",
     "from then on the delayed value is one cycle older than it should be",
     [("src/monitor.cc",
       "                watch_var->set_value(new_value);\n",
       "                if (new_value) watch_var->set_value(new_value);\n")],
     r'''
int main(int, char **argv) {
    Rig r;
    r.load(std::string(argv[1]) + "/t.json");
    auto &ns = *r.dbg->namespaces_[0];
    auto name = ns.rtl->get_full_name("mod.a");
    using T = hgdb::MonitorRequest::MonitorType;
    ns.monitor->add_monitor_variable(name, 2, 7);
    auto *h = ns.rtl->get_handle(name);
    auto step = [&](int64_t v) {
        ns.rtl->set_value(h, v);
        return ns.monitor->get_watched_values(T::delay_clock_edge).at(0).second;
    };
    EXPECT(!step(1));
    EXPECT(step(2) == 7);
    auto &vars = ns.monitor->watched_variables_;
    auto *good = vars.begin()->second->handle;
    vars.begin()->second->handle = nullptr;
    EXPECT(ns.monitor->get_watched_values(T::delay_clock_edge).at(0).second == 1);
    vars.begin()->second->handle = good;
    EXPECT(step(4) == 2);
    EXPECT(!step(5));
    _exit(0);
}
''', rig_send=True)

seed("b26_top_prefix", "C26",
     "a name whose first part begins with the name of the design's top but is another one",
     "the name is translated into a name within the design, so another signal is read and written",
     [("src/rtl.cc",
       "    if (hierarchy_name_prefix_map_.first != top) {\n",
       "    auto const &known_top = hierarchy_name_prefix_map_.first;\n"
       "    if (known_top.empty() || !top.starts_with(known_top)) {\n")],
     r'''
int main(int, char **argv) {
    Rig r;
    r.load(std::string(argv[1]) + "/t.json");
    auto &rtl = *r.dbg->namespaces_[0]->rtl;
    rtl.set_mapping("mod", "top.dut.");
    EXPECT(rtl.get_full_name("mod.a") == "top.dut.a");
    EXPECT(rtl.get_full_name("mod") == "top.dut");
    EXPECT(rtl.get_full_name("mod2.a") == "mod2.a");
    EXPECT(rtl.get_full_name("$root.x.a") == "x.a");
    _exit(0);
}
''', rig_send=True)

seed("b26_ascending_slice", "C26",
     "a slice of more than one bit whose bounds are given lowest first",
     "only one bit of the slice is read",
     [("src/rtl.cc",
       "        if (*n < lo) lo = *n;\n",
       "        lo = static_cast<uint32_t>(*n);\n")],
     r'''
int main(int, char **argv) {
    Rig r;
    r.load(std::string(argv[1]) + "/t.json");
    auto &rtl = *r.dbg->namespaces_[0]->rtl;
    auto name = rtl.get_full_name("mod.a");
    rtl.set_value(rtl.get_handle(name), 0xA5);
    EXPECT(rtl.get_value(name + "[7:4]") == 0xA);
    EXPECT(rtl.get_value(name + "[4:7]") == 0xA);
    EXPECT(rtl.get_signal_width(rtl.get_handle(name + "[0:3]")) == 4);
    _exit(0);
}
''', rig_send=True)

seed("b13_tight_xor", "C13",
     "an expression with both | and ^ and no brackets, whose two readings differ",
     "| binds tighter than ^, so a condition is true when it should be false",
     [("src/eval.cc",
       "struct xor_expression0 : seq<xor_op, band_expression> {};\n"
       "struct xor_expression : seq<band_expression, star<xor_expression0>> {};\n"
       "struct bor_expression0 : seq<bor_op, xor_expression> {};\n"
       "struct bor_expression : seq<xor_expression, star<bor_expression0>> {};\n"
       "struct land_expression0 : seq<land_op, bor_expression> {};\n"
       "struct land_expression : seq<bor_expression, star<land_expression0>> {};\n",
       "struct bor_expression0 : seq<bor_op, band_expression> {};\n"
       "struct bor_expression : seq<band_expression, star<bor_expression0>> {};\n"
       "struct xor_expression0 : seq<xor_op, bor_expression> {};\n"
       "struct xor_expression : seq<bor_expression, star<xor_expression0>> {};\n"
       "struct land_expression0 : seq<land_op, xor_expression> {};\n"
       "struct land_expression : seq<xor_expression, star<land_expression0>> {};\n")],
     r'''
int main(int, char **argv) {
    hgdb::DebugExpression a("1 ^ 1 | 1");
    EXPECT(a.correct());
    EXPECT(a.eval() == 1);
    hgdb::DebugExpression b("6 | 2 & 3 ^ 2");
    EXPECT(b.eval() == 6);
    _exit(0);
}
''')

seed("b13_zero_kept", "C13",
     "an expression that is computed twice, where a name's value has become 0 in between",
     "the value of the name stays what it was, so the condition stays true",
     [("src/eval.cc",
       "        symbols_.at(name)->set_value(value);\n    }\n    return root_->eval();",
       "        auto *symbol = symbols_.at(name);\n"
       "        if (symbol->eval() == 0 || value != 0) symbol->set_value(value);\n"
       "    }\n    return root_->eval();")],
     r'''
int main(int, char **argv) {
    hgdb::DebugExpression a("a.b[3] + 1");
    EXPECT(a.correct());
    a.set_value("a.b[3]", 4);
    EXPECT(a.eval() == 5);
    a.set_value("a.b[3]", 7);
    EXPECT(a.eval() == 8);
    a.set_value("a.b[3]", 0);
    EXPECT(a.eval() == 1);
    _exit(0);
}
''')

seed("b11_stale_cleared", "C11",
     "a client's command that arrives after the breakpoint was reported and before the simulation "
     "waits",
     "the permission is thrown away, and the simulation waits forever for one",
     [("src/thread.cc",
       "    cv_.wait(lock_, [this] { return ready_.load(); });\n"
       "    ready_.store(false);\n",
       "    // only what is asked for from now on counts\n"
       "    ready_.store(false);\n"
       "    cv_.wait(lock_, [this] { return ready_.load(); });\n"
       "    ready_.store(false);\n")],
     r'''
#include "../src/thread.hh"
#include <unistd.h>
int main(int, char **) {
    static hgdb::RuntimeLock l;
    static std::atomic<bool> done = false;
    l.ready();
    std::thread t([] { l.wait(); done = true; });
    for (int i = 0; i < 50 && !done; i++) usleep(100000);
    EXPECT(done.load());
    // it is used up
    done = false;
    std::thread t2([] { l.wait(); done = true; });
    usleep(300000);
    EXPECT(!done.load());
    l.ready();
    for (int i = 0; i < 50 && !done; i++) usleep(100000);
    EXPECT(done.load());
    _exit(0);
}
''')

seed("b12_first_clock_only", "C12",
     "a design with more than one clock, whose last client leaves",
     "the evaluation stays hooked to all the clocks but one after the debugger has left",
     [("src/debug.cc",
       "                rtl->remove_call_back(callback_name);\n",
       "                rtl->remove_call_back(callback_name);\n"
       "                break;\n")],
     r'''
static int cb(p_cb_data) { return 0; }
int main(int, char **argv) {
    Rig r;
    r.load(std::string(argv[1]) + "/t.json");
    auto &ns = *r.dbg->namespaces_[0];
    auto *rtl = ns.rtl.get();
    rtl->add_call_back("Monitor top.clk1", cbValueChange, cb, nullptr, nullptr);
    rtl->add_call_back("Monitor top.clk2", cbValueChange, cb, nullptr, nullptr);
    rtl->add_call_back("Monitor top.clk3", cbValueChange, cb, nullptr, nullptr);
    r.dbg->detach();
    for (auto const &name : rtl->callback_names()) EXPECT(name.find("top.clk") == std::string::npos);
    _exit(0);
}
''')

seed("b12_running_first", "C12",
     "a simulation that waits at a breakpoint when its last client leaves",
     "the debugger no longer counts as running, but the simulation still waits, and nobody is left "
     "who could let it go",
     [("src/debug.cc",
       "    if (is_running_.load()) {\n        is_running_ = false;\n        lock_.ready();\n    }\n",
       "    if (is_running_.exchange(false) && !scheduler_) lock_.ready();\n")],
     r'''
#include <unistd.h>
int main(int, char **argv) {
    static Rig r;
    r.load(std::string(argv[1]) + "/t.json");
    static std::atomic<bool> done = false;
    r.dbg->is_running_ = true;
    std::thread t([] { r.dbg->lock_.wait(); done = true; });
    usleep(200000);
    EXPECT(!done.load());
    r.dbg->detach();
    for (int i = 0; i < 50 && !done; i++) usleep(100000);
    EXPECT(done.load());
    _exit(0);
}
''')
