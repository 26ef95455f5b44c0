/* Native harnesses: components of DLB that are pure functions of their inputs are compiled as they are,
 * with AddressSanitizer and bounds checks, and driven over an exhaustively enumerated input space.
 * A fatal() of the library surfaces as the exception nat::Abort; a memory error, a crash or a call that
 * does not return ends the search with a violation for the case being evaluated. */
#ifndef NAT_H
#define NAT_H
#include "mc.h"
#include <functional>
namespace nat {
struct Abort {};
/* run f; false if the library aborted */
bool run(const std::function<void()> &f);
/* what the library printed on stdout/stderr since the last call of cap() */
void cap(); const std::string &out();
}
#include <map>
namespace nat {
/* a pretended /sys: files and directories (in the order they are listed) */
extern bool fake_sys; extern std::map<std::string, std::string> sys_files; extern std::map<std::string, std::vector<std::string>> sys_dirs;
}
#endif
