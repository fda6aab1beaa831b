// Coverage-guided search (libFuzzer) over the real straightener: the first bytes choose firmware and settings, the rest is the source file.
#include "arc_interpolation.h"
#include "marlin_1.h"
#include "marlin_2.h"
#include "repetier.h"
#include "prusa.h"
#include "smoothieware.h"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <string>
#include <unistd.h>
template <class F> static firmware_arguments defaults(firmware_arguments a) { F f(a); f.set_arguments(a); return f.get_default_arguments_for_current_version(); }
extern "C" int LLVMFuzzerTestOneInput(const unsigned char* d, size_t n)
{
  static std::string dir;
  if (dir.empty()) { const char* t = getenv("FUZZ_DIR"); dir = (t ? t : "/dev/shm") + std::string("/s") + std::to_string(getpid()); std::cout.setstate(std::ios::failbit); }
  if (n < 8) return 0;
  static const char* V[8] = { "1.1.9.1", "2.0.9.1", "2.0.9.2", "1.0.4", "1.0.5", "3.10.0", "3.11.0", "2021-06-19" };
  static const firmware_types T[8] = { firmware_types::MARLIN_1, firmware_types::MARLIN_2, firmware_types::MARLIN_2, firmware_types::REPETIER, firmware_types::REPETIER, firmware_types::PRUSA, firmware_types::PRUSA, firmware_types::SMOOTHIEWARE };
  static const double MM[4] = { 1, 0.5, 5, 0.05 }, S[4] = { 0, 50, 0.5, -1 };
  static const int C[4] = { 25, 0, 1, -3 }, A[4] = { 24, 0, 72, 1 };
  arc_interpolation_args a;
  firmware_arguments& f = a.firmware_args;
  f.firmware_type = T[d[0] & 7]; f.version = V[d[0] & 7];
  switch (f.firmware_type)
  {
    case firmware_types::MARLIN_1: f = defaults<marlin_1>(f); break;
    case firmware_types::MARLIN_2: f = defaults<marlin_2>(f); break;
    case firmware_types::REPETIER: f = defaults<repetier>(f); break;
    case firmware_types::PRUSA: f = defaults<prusa>(f); break;
    default: f = defaults<smoothieware>(f);
  }
  if (d[0] & 8) { f.mm_per_arc_segment = MM[d[1] & 3]; f.n_arc_correction = C[d[1] >> 2 & 3]; f.min_arc_segments = A[d[1] >> 4 & 3]; f.min_circle_segments = A[d[1] >> 6]; }
  if (d[0] & 16) { f.arc_segments_per_sec = S[d[2] & 3]; f.mm_max_arc_error = S[d[2] >> 2 & 3] / 100; f.min_mm_per_arc_segment = S[d[2] >> 4 & 3] / 100; f.arc_segments_per_r = S[d[2] >> 6]; }
  if (d[0] & 32) f.g90_g91_influences_extruder = d[0] & 64;
  a.source_path = dir + ".gcode"; a.target_path = dir + ".out";
  { std::ofstream o(a.source_path, std::ios::binary | std::ios::trunc); o.write((const char*)d + 4, n - 4); }
  { arc_interpolation w(a); if (!w.process()) abort(); }
  return 0;
}
