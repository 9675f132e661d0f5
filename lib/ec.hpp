// libecoli's public API from C++, plus a tracking / fault-injecting allocator
// plugged in through the public ec_malloc_register().
#pragma once
#include <sys/types.h>
#include <sys/queue.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <syslog.h>
#include <limits.h>
#include <assert.h>
#include <histedit.h>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
extern "C" {
#define operator operator_
#define typename typename_
#include <ecoli.h>
#include <ecoli_yaml.h>
#include <ecoli_editline.h>
#undef operator
#undef typename
}

namespace ec {

struct Alloc {
	struct Blk { size_t size; const char *file; unsigned line; uint64_t seq; };
	std::unordered_map<void *, Blk> live;
	uint64_t n_alloc = 0;       // allocation requests since reset
	uint64_t fail_from = 0;     // 0 = never; else fail request number fail_from ...
	uint64_t fail_to = 0;       // ... to fail_to (inclusive)
	uint64_t n_failed = 0;
	size_t bytes = 0;
	std::string error;          // discipline error (foreign/double free)
	bool enabled = false;
};
Alloc &alloc();
void alloc_install();           // before ec_init()
void lib_init();                // alloc_install + ec_init + quiet logs
std::string leaks(uint64_t since_seq, size_t max = 5); // "" when none
uint64_t alloc_mark();          // sequence number for leaks()

std::vector<std::string> vec(const struct ec_strvec *v);
struct ec_strvec *mk(const std::vector<std::string> &v);
std::string show(const std::vector<std::string> &v);

} // namespace ec
