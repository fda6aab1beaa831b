// Coverage-guided search (libFuzzer) over the real converter: the first bytes choose the configuration, the rest is the source file.
#include <arc_welder.h>
#include <logger.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <string>
#include <unistd.h>
static bool quiet(arc_welder_progress, logger*, int) { return true; }
extern "C" int LLVMFuzzerTestOneInput(const unsigned char* d, size_t n)
{
  static std::vector<std::string> names{ ARC_WELDER_LOGGER_NAME }; static std::vector<int> levels{ 0 };
  static logger* log = nullptr; static std::string dir;
  if (!log) { log = new logger(names, levels); log->set_log_level_by_value(50); const char* t = getenv("FUZZ_DIR"); dir = (t ? t : "/dev/shm") + std::string("/f") + std::to_string(getpid()); }
  if (n < 8) return 0;
  static const double R[] = { 0.05, 0.001, 0.5, 0.1 }, T[] = { 0.05, 0.001, 0.5, 0.9 }, M[] = { 9999, 1, 1e6, 50 }, V[] = { 0.05, 0, 0.5, 10 }, S[] = { 0, 1, 0.1, 100 };
  static const int C[] = { 0, 31, 45, 60 }, A[] = { 0, 12, 100, 2 }, B[] = { 50, 2, 3, 10 };
  arc_welder_args a(dir + ".gcode", dir + ".out", log);
  a.resolution_mm = R[d[0] & 3]; a.path_tolerance_percent = T[d[0] >> 2 & 3]; a.max_radius_mm = M[d[0] >> 4 & 3]; a.extrusion_rate_variance_percent = V[d[0] >> 6];
  a.default_xyz_precision = 3 + (d[1] & 3); a.default_e_precision = 3 + (d[1] >> 2 & 3); a.max_gcode_length = C[d[1] >> 4 & 3]; a.buffer_size = B[d[1] >> 6];
  a.allow_3d_arcs = d[2] & 1; a.allow_travel_arcs = d[2] & 2; a.allow_dynamic_precision = d[2] & 4; a.g90_g91_influences_extruder = d[2] & 8;
  if (d[2] & 16) { a.mm_per_arc_segment = S[1 + (d[2] >> 5) % 3]; a.min_arc_segments = A[1 + (d[3] & 1)]; }
  a.callback = quiet;
  { std::ofstream f(dir + ".gcode", std::ios::binary | std::ios::trunc); f.write((const char*)d + 4, n - 4); }
  { arc_welder w(a); arc_welder_results r = w.process(); if (!r.success) abort(); }
  return 0;
}
