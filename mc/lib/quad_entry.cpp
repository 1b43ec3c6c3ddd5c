#include <string>
#include <vector>
// the program's own main; this group of objects is closed, so the name stays inside it
int repo_main(int argc, const char** argv) asm("main");
extern "C" int mc_quad_mesh(const std::vector<std::string>& args) {
    std::vector<std::string> a{"quad_mesh_generator"};
    a.insert(a.end(), args.begin(), args.end());
    std::vector<const char*> v;
    for (auto& s : a)
        v.push_back(s.c_str());
    v.push_back(nullptr);
    return repo_main((int)a.size(), v.data());
}
