// Drives AnalysisInputManager: commands on stdin, one answer line ("@ ...") per command.
#include <eustace/analysis/inputmanager.h>
#include <cstdio>
#include <string>
using namespace EUSTACE;
static int find(const char* const* names, int n, const std::string& s) { for (int i = 0; i < n; i++) if (s == names[i]) return i; fprintf(stderr, "unknown %s\n", s.c_str()); exit(2); }
static void entry(const ObservationIterator& it, size_t nc)
{
  printf(" %llu %.17g %.17g", (unsigned long long)it.Identifier(), it.Measurement(), it.UncertaintyUncorrelated());
  for (size_t c = 0; c < nc; c++) printf(" %.17g", it.UncertaintyLocallyCorrelated(c));
}
int main(int argc, char** argv)
{
  char cmd[32], sn[64], on[64];
  AnalysisInputManager* m = new AnalysisInputManager(argv[1]);
  while (scanf("%31s %63s %63s", cmd, sn, on) == 3)
  {
    std::string c(cmd);
    enum AnalysisInput::sourcetype s = (enum AnalysisInput::sourcetype) find(AnalysisInput::sourcename, AnalysisInput::num_sources, sn);
    enum AnalysisInput::observabletype o = (enum AnalysisInput::observabletype) find(AnalysisInput::observablename, AnalysisInput::num_observables, on);
    long long a = 0, b = 0;
    try
    {
      if (c == "fresh") { delete m; m = new AnalysisInputManager(argv[1]); printf("@ ok\n"); }
      else if (c == "specify") { if (scanf("%lld %lld", &a, &b) != 2) return 2; m->Specify(AnalysisInput(s, o, a, b)); printf("@ ok\n"); }
      else if (c == "name")
      {
        if (scanf("%lld", &a) != 1) return 2;
        std::string x, y, z; m->PathNameObservation(x, s, o, a); m->PathNameMobileLocationLookup(y, s, o, a); m->PathNameLocalCorrelationRange(z, s, o);
        printf("@ ok %s %s %s\n", x.c_str(), y.c_str(), z.c_str());
      }
      else if (c == "day")
      {
        if (scanf("%lld", &a) != 1) return 2;
        AnalysisInputRetrieval r; m->RetrieveDay(r, s, o, a);
        std::string done;
        printf("@ ok %zu %zu", r.NumLocalCorrelationRanges(), r.NumObservations());
        for (size_t k = 0; k < r.NumLocalCorrelationRanges(); k++) printf(" %.17g", r.LocalCorrelationRange(k));
        for (AnalysisInputIterator it(r); it.HasElement(); it.Next()) { entry(it, r.NumLocalCorrelationRanges()); printf(" %.17g %.17g", it.Location().latitude, it.Location().longitude); }
        printf("\n");
      }
      else if (c == "count") { if (scanf("%lld", &a) != 1) return 2; size_t n = m->TotalDailyObservations(s, o, a); printf("@ ok %zu\n", n); }
      else if (c == "total") { size_t n = m->TotalObservations(s, o); printf("@ ok %zu\n", n); }
      else if (c == "locations") { if (scanf("%lld", &a) != 1) return 2; size_t n = a >= 0 ? m->TotalDailyMobileLocations(s, o, a) : m->TotalLocations(s); printf("@ ok %zu\n", n); }
      else if (c == "place")
      {
        if (scanf("%lld", &a) != 1) return 2;
        std::vector<uint64_t> ids(a); for (long long k = 0; k < a; k++) { unsigned long long v; if (scanf("%llu", &v) != 1) return 2; ids[k] = v; }
        AnalysisInputRetrievalCollection col; m->RetrieveLocations(col, s, o, ids);
        printf("@ ok %zu", col.Retrievals().size());
        for (size_t k = 0; k < col.Retrievals().size(); k++)
        {
          const AnalysisInputRetrieval& r = *col.Retrievals()[k];
          printf(" %zu", r.NumObservations());
          for (AnalysisInputIterator it(r); it.HasElement(); it.Next()) entry(it, r.NumLocalCorrelationRanges());
        }
        printf("\n");
      }
      else return 2;
    }
    catch (const FormatException&) { printf("@ refused\n"); }
    fflush(stdout);
  }
  delete m;
  return 0;
}
