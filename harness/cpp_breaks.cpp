// Drives ObservationBreakingPoints and BreakPointsReader: commands on stdin, one answer line ("@ ...") per command.
#include <eustace/analysis/break_points/insitu_land_break_points.h>
#include <cstdio>
#include <memory>
#include <string>
using namespace EUSTACE;
typedef std::vector<int32_t> V;
static void show(const char* name, const V& v) { printf(" %s", name); printf(" %zu", v.size()); for (size_t i = 0; i < v.size(); i++) printf(" %d", (int)v[i]); }
int main()
{
  std::unique_ptr<ObservationBreakingPoints> b;
  char cmd[32];
  while (scanf("%31s", cmd) == 1)
  {
    std::string c(cmd);
    bool ok = true;
    int nsel = 0;
    if (c == "hold")
    {
      int n; if (scanf("%d", &n) != 1) return 2;
      V t(n), s(n); std::vector<int> k(n);
      for (int i = 0; i < n; i++) if (scanf("%d %d %d", &t[i], &s[i], &k[i]) != 3) return 2;
      b.reset(new ObservationBreakingPoints(t, s, k));
    }
    else if (c == "read")
    {
      char path[4096]; if (scanf("%4095s", path) != 1) return 2;
      BreakPointsReader reader(path);
      b.reset(reader.observation());
    }
    else if (c == "policy")
    {
      int code; double thr, decay; if (scanf("%d %lf %lf", &code, &thr, &decay) != 3) return 2;
      try { b->apply_policy(code, thr, decay); } catch (const std::runtime_error&) { ok = false; }
    }
    else return 2;
    if (scanf("%d", &nsel) != 1) return 2;
    printf("\n@ %d %d %d", (int)ok, b->number_of_observations(), b->number_of_stations());
    show("t", b->break_time); show("s", b->break_station); show("k", V(b->break_likelihood.begin(), b->break_likelihood.end()));
    show("st", b->stations_collection()); show("ct", b->stations_count());
    for (int i = 0; i < nsel; i++) { int s; if (scanf("%d", &s) != 1) return 2; show("sel", b->filtered_breakpoints(s)); }
    printf("\n"); fflush(stdout);
  }
  return 0;
}
