// Controlled scheduler: runs a multi-threaded (OpenMP) operation once per interleaving of its synchronisation events.
// Code under test is compiled with -fsanitize=thread but linked against sched.cpp, which provides the OpenMP, mutex,
// atomic, allocation and memory-access entry points. Threads are fibers; every memory access of every schedule is
// checked for races with vector clocks; blocks freed during a run are kept until it ends, so that an access to freed
// storage or a second release is seen whatever the allocator does.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace sched {
struct Options { int threads = 2; int preemptions = 2; bool atomics = false; bool counts = true; /* counting a reference orders nothing but the last release */ long cap = 2000000; double seconds = 1e9; long fail = 0; /* the allocation made while several threads run that fails, from 1; -k for the k-th call of tetrahedralize instead */ };
struct Report { std::string ended; /* "" | "exception: …" | "terminated: …" | "deadlock" */ std::vector<std::string> faults; std::string schedule; long points = 0; long live = 0; long accesses = 0; int preemptions = 0; long triangulations = 0; std::vector<uintptr_t> sites; /* callers of the allocations made while several threads ran */ };
struct Stats { long schedules = 0, points = 0, accesses = 0, most_points = 0; bool complete = true; };
//! run body under every schedule; judge is called after each run, outside the controlled region, and returns false to stop
Stats explore(const Options&, const std::function<void()>& body, const std::function<bool(const Report&)>& judge);
//! run body once, serially (one thread), recording the same report
Report once(int threads, const std::function<void()>& body);
bool inside();
}
