// A debugger on a mock simulator; responses are recorded instead of sent.
#include <atomic>
#include <any>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <fstream>
#include <iostream>
#include <list>
#include <mutex>
#include <regex>
#include <thread>
#include <variant>
#include "rapidjson/document.h"
#include "websocketpp/config/asio_no_tls.hpp"
#include "websocketpp/server.hpp"
#include "websocketpp/config/asio_no_tls_client.hpp"
#include "websocketpp/client.hpp"
#include "gtest/gtest.h"
#define private public
#include "debug.hh"
#include "tests/test_util.hh"
#undef private

struct Sent {
    std::string msg;
    int64_t conn;  // -1: broadcast
};
inline std::vector<Sent> sent;
inline std::mutex sent_lock;

#ifdef RIG_SEND
namespace hgdb {
void DebugServer::send(const std::string &p) {
    std::lock_guard g(sent_lock);
    sent.push_back({p, -1});
}
void DebugServer::send(const std::string &p, const std::string &) {
    std::lock_guard g(sent_lock);
    sent.push_back({p, -2});
}
void DebugServer::send(const std::string &p, uint64_t c) {
    std::lock_guard g(sent_lock);
    sent.push_back({p, static_cast<int64_t>(c)});
}
}  // namespace hgdb
#endif

// top.dut (module "mod"): clk, a, b
inline const char *symbol_table = R"({
  "generator": "demo", "top": "mod",
  "table": [
    {"type": "module", "name": "mod",
     "scope": [
      {"type": "block", "filename": "f.cc",
       "scope": [
         {"type": "decl", "line": 1, "variable": {"name": "a", "value": "a", "rtl": true}},
         {"type": "none", "line": 2},
         {"type": "none", "line": 3, "condition": "b"},
         {"type": "assign", "line": 4, "variable": {"name": "b", "value": "b", "rtl": true}},
         {"type": "none", "line": 5}
       ]}
     ],
     "instances": [],
     "variables": [{"name": "a", "value": "a", "rtl": true},
                   {"name": "b", "value": "b", "rtl": true}]}
  ]
})";

struct Rig {
    std::shared_ptr<MockVPIProvider> vpi = std::make_shared<MockVPIProvider>();
    std::unique_ptr<hgdb::Debugger> dbg;
    vpiHandle clk, a, b;
    explicit Rig(const std::vector<std::string> &argv = {"sim"}) {
        auto *top = vpi->add_module("top", "top");
        vpi->set_top(top);
        auto *dut = vpi->add_module("mod", "top.dut");
        clk = vpi->add_signal(dut, "top.dut.clk");
        a = vpi->add_signal(dut, "top.dut.a");
        b = vpi->add_signal(dut, "top.dut.b");
        vpi->set_signal_value(clk, 0);
        vpi->set_signal_value(a, 1);
        vpi->set_signal_value(b, 1);
        vpi->set_argv(argv);
        vpi->set_time(100);
        std::shared_ptr<hgdb::AVPIProvider> p = vpi;
        dbg = std::make_unique<hgdb::Debugger>(p);
    }
    void load(const std::string &file) {
        std::ofstream(file) << symbol_table;
        if (!dbg->initialize_db(file)) {
            std::cerr << "demo: symbol table not loaded\n";
            _exit(2);
        }
    }
    // what the debugger sent while handling one request
    std::vector<Sent> request(const std::string &msg, uint64_t conn = 0) {
        {
            std::lock_guard g(sent_lock);
            sent.clear();
        }
        dbg->on_message(msg, conn);
        std::lock_guard g(sent_lock);
        return sent;
    }
};

#define EXPECT(c)                                                       \
    do {                                                                \
        if (!(c)) {                                                     \
            std::cerr << "demo: failed: " #c << std::endl;              \
            _exit(1);                                                   \
        }                                                               \
    } while (0)
