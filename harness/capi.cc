// Library side of the command-line comparison: executes a script of C API calls
// (one per line, fields separated by tabs) and prints one JSON value per line.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <memory>
#include <string>
#include <vector>
#include <iostream>
#include <sol/c_api.h>
#include <sol/sol.h>
#include <sol/pario/data_reader.h>
static FILE* out;
static std::vector<std::string> fields(const std::string& l) {
  std::vector<std::string> v; size_t p = 0;
  while (true) { size_t q = l.find('\t', p); if (q == std::string::npos) { v.push_back(l.substr(p)); break; } v.push_back(l.substr(p, q - p)); p = q + 1; }
  return v;
}
struct Prog { long long n, it, up; double er; };
static std::vector<Prog> g_trace;
static void on_iter(void*, long long n, long long it, long long up, double er) { g_trace.push_back({n, it, up, er}); }
int main(int argc, char** argv) {
  std::ifstream in(argv[1]); out = fopen(argv[2], "w");
  void *m = nullptr, *it = nullptr; std::string line;
  while (std::getline(in, line)) {
    std::vector<std::string> f = fields(line); const std::string& op = f[0];
    if (op == "create") { sol_ReleaseModel(&m); m = sol_CreateModel(f[1].c_str(), atoi(f[2].c_str())); fprintf(out, "%d\n", m != nullptr); }
    else if (op == "restore") { sol_ReleaseModel(&m); m = sol_RestoreModel(f[1].c_str()); fprintf(out, "%d\n", m != nullptr); }
    else if (op == "set") fprintf(out, "%d\n", sol_SetModelParameter(m, f[1].c_str(), f[2].c_str()));
    else if (op == "iter") { sol_ReleaseDataIter(&it); it = sol_CreateDataIter(atoi(f[1].c_str()), atoi(f[2].c_str())); fprintf(out, "%d\n", it != nullptr); }
    else if (op == "load") fprintf(out, "%d\n", sol_LoadData(it, f[1].c_str(), f[2].c_str(), atoi(f[3].c_str())));
    else if (op == "train") fprintf(out, "\"%.4f\"\n", 1.f - sol_Train(m, it));
    else if (op == "watch") { g_trace.clear(); sol_InspectOnlineIteration(m, on_iter, nullptr); fprintf(out, "0\n"); }
    else if (op == "trace") { fprintf(out, "["); for (size_t i = 0; i < g_trace.size(); ++i) fprintf(out, "%s[%lld,%lld,\"%.9g\",%lld]", i ? "," : "", g_trace[i].n, g_trace[i].it, g_trace[i].er, g_trace[i].up); fprintf(out, "]\n"); }
    else if (op == "test") fprintf(out, "\"%.4f\"\n", 1.f - sol_Test(m, it, f[1].empty() ? nullptr : f[1].c_str()));
    else if (op == "sparsity") fprintf(out, "\"%.4f%%\"\n", sol_model_sparsity(m) * 100.f);
    else if (op == "save") fprintf(out, "%d\n", sol_SaveModel(m, f[1].c_str()));
    else if (op == "convert") fprintf(out, "%d\n", sol_convert_data(f[1].c_str(), f[2].c_str(), f[3].c_str(), f[4].c_str(), f[5] == "1", strtof(f[6].c_str(), nullptr)));
    else if (op == "analyze") fprintf(out, "%d\n", sol_analyze_data(f[1].c_str(), f[2].c_str(), f[3].c_str()));
    else if (op == "split") fprintf(out, "%d\n", sol_split_data(f[1].c_str(), f[2].c_str(), atoi(f[3].c_str()), f[4].c_str(), f[5].c_str(), f[6] == "1"));
    else if (op == "dump") {  // every example as [label, [[index, value bits], ...]]
      sol::pario::DataReader* r = sol::pario::DataReader::Create(f[2]);
      sol::pario::DataPoint dp; int ret = r->Open(f[1]); fprintf(out, "[");
      bool first = true;
      while (ret == 0 && (ret = r->Next(dp)) == 0) {
        fprintf(out, "%s[%d,[", first ? "" : ",", int(dp.label())); first = false;
        for (size_t i = 0; i < dp.size(); ++i) { float v = dp.feature(i); unsigned u; memcpy(&u, &v, 4); fprintf(out, "%s[%u,%u]", i ? "," : "", unsigned(dp.index(i)), u); }
        fprintf(out, "]]");
      }
      fprintf(out, "%s%d]\n", first ? "" : ",", ret);
      delete r;
    } else { fprintf(out, "null\n"); }
    fflush(out);
  }
  sol_ReleaseModel(&m); sol_ReleaseDataIter(&it);
  fclose(out);
  return 0;
}
