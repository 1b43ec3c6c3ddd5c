#include "sim.h"
// the program's own main; this group of objects is closed, so the name stays inside it
int repo_main(int argc, char** argv) asm("main");
extern "C" int mc_partitioner(const std::vector<std::string>& args) {
    std::vector<std::string> a{"partitioner"};
    a.insert(a.end(), args.begin(), args.end());
    std::vector<char*> v;
    for (auto& s : a)
        v.push_back(&s[0]);
    v.push_back(nullptr);
    return repo_main((int)a.size(), v.data());
}
