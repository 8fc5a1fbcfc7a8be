// first use of decoding by several threads at once
#include "lh.hpp"
#include "sched.hpp"
#include <Lintel/Base64.hpp>
using namespace mc; using std::string; using lintel::ASCIIbeticalB64;
static void first(int threads) {
    std::vector<int> id; string in[3] = {string("\x01\xff", 2), string("zyx"), string("\0\x80\x7f\xfe", 4)}; string out[3]; string enc[3]; for (int i = 0; i < threads; i++) enc[i] = ASCIIbeticalB64::encode(in[i].data(), in[i].size(), 0);
    for (int i = 0; i < threads; i++) id.push_back(sched::spawn([&, i] { sched::point("start"); out[i] = ASCIIbeticalB64::decode(enc[i]); })); for (int t : id) sched::join(t); for (int i = 0; i < threads; i++) MC_REQ(out[i] == in[i], "thread " << i << " decoded " << enc[i] << " wrongly"); outcome(1); }
std::vector<Config> configs() {
    std::vector<Config> v; bool T = thorough(); sched::Opt o; o.race_fail = true; o.preempt = T ? 4 : 3;
    v.push_back({"first_use_2", [=] { sched::run(o, [] { first(2); }); }, "all interleavings of two first decoders at synchronisation points, data races by happens-before"}); v.push_back({"first_use_3", [=] { sched::run(o, [] { first(3); }); }, "three first decoders"});
    return v; }
int main(int argc, char **argv) { lh_init(); sched::init(); return mc::run_main(argc, argv, configs); }
