// Batch driver around the real arc_welder library: one job per input line (tab separated key=value),
// one JSON result line per job.  Everything recorded is taken at the library's public boundary
// (results struct, progress callback).  "T=<n>" as first argument runs jobs on n threads at once.
#include <arc_welder.h>
#include <logger.h>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <thread>
#include <chrono>
#include <atomic>
#include <mutex>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <limits>

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
// The C library's functions that hand out shared storage are not instrumented; these stand-ins make their sharing visible.
#include <ctime>
#include <cstring>
static std::tm shared_tm; static char shared_text[64]; static char* shared_tok; static unsigned shared_seed;
extern "C" std::tm* localtime(const time_t* t) __THROW { std::tm v; localtime_r(t, &v); shared_tm = v; return &shared_tm; }
extern "C" std::tm* gmtime(const time_t* t) __THROW { std::tm v; gmtime_r(t, &v); shared_tm = v; return &shared_tm; }
extern "C" char* asctime(const std::tm* t) __THROW { char b[64]; asctime_r(t, b); for (int i = 0; i < 64; i++) shared_text[i] = b[i]; return shared_text; }
extern "C" char* ctime(const time_t* t) __THROW { std::tm v; localtime_r(t, &v); return asctime(&v); }
extern "C" char* strtok(char* s, const char* d) __THROW { char* p = shared_tok; char* r = strtok_r(s, d, &p); shared_tok = p; return r; }
extern "C" int rand() __THROW { shared_seed = shared_seed * 1103515245u + 12345u; return (shared_seed >> 16) & RAND_MAX; }
#endif
#endif

struct event { double pct, el, rem; long pos, ssz, tsz; int lines, gcodes, arcs, pts; double ratio, cpct; };
static thread_local std::vector<event>* g_events = nullptr;
static thread_local int g_cancel_at = -1;
static thread_local long g_delay = 0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static bool on_progress(arc_welder_progress p, logger*, int)
{
  event e{ p.percent_complete, p.seconds_elapsed, p.seconds_remaining, p.source_file_position, p.source_file_size,
           p.target_file_size, p.lines_processed, p.gcodes_processed, p.arcs_created, p.points_compressed,
           p.compression_ratio, p.compression_percent };
  g_events->push_back(e);
  if (g_delay > 0) std::this_thread::sleep_for(std::chrono::microseconds(g_delay)); else if (g_delay < 0) std::this_thread::yield();
  return !(g_cancel_at >= 0 && (int)g_events->size() > g_cancel_at);
}
static std::string num(double d)
{
  if (std::isnan(d)) return "\"nan\"";
  if (std::isinf(d)) return d > 0 ? "\"inf\"" : "\"-inf\"";
  char b[64]; snprintf(b, sizeof b, "%.17g", d); return b;
}
static std::string stats(const source_target_segment_statistics& s)
{
  std::ostringstream o;
  o << "{\"cs\":" << s.total_count_source << ",\"ct\":" << s.total_count_target
    << ",\"ls\":" << num(s.total_length_source) << ",\"lt\":" << num(s.total_length_target) << "}";
  return o.str();
}
static std::string esc(const std::string& s)
{
  std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o;
}
static double dv(const std::map<std::string, std::string>& m, const char* k, double d)
{ auto i = m.find(k); return i == m.end() ? d : strtod(i->second.c_str(), nullptr); }

static std::string run_job(const std::map<std::string, std::string>& m, logger* log)
{
  std::vector<event> events; g_events = &events;
  g_cancel_at = (int)dv(m, "cancel", -1);
  g_delay = (long)dv(m, "delay", 0);
  const double t0 = now();
  arc_welder_args a(m.at("src"), m.at("dst"), log);
  a.resolution_mm = dv(m, "res", a.resolution_mm);
  a.path_tolerance_percent = dv(m, "tol", a.path_tolerance_percent);
  a.max_radius_mm = dv(m, "rad", a.max_radius_mm);
  a.min_arc_segments = (int)dv(m, "mas", a.min_arc_segments);
  a.mm_per_arc_segment = dv(m, "mm", a.mm_per_arc_segment);
  a.g90_g91_influences_extruder = dv(m, "g90", 0) != 0;
  a.allow_3d_arcs = dv(m, "z3d", 0) != 0;
  a.allow_travel_arcs = dv(m, "trav", 0) != 0;
  a.allow_dynamic_precision = dv(m, "dyn", 0) != 0;
  a.default_xyz_precision = (unsigned char)dv(m, "xp", a.default_xyz_precision);
  a.default_e_precision = (unsigned char)dv(m, "ep", a.default_e_precision);
  a.extrusion_rate_variance_percent = dv(m, "var", a.extrusion_rate_variance_percent);
  a.max_gcode_length = (int)dv(m, "mgl", a.max_gcode_length);
  a.buffer_size = (int)dv(m, "buf", a.buffer_size);
  a.notification_period_seconds = dv(m, "notif", a.notification_period_seconds);
  if (dv(m, "nocb", 0) == 0) a.callback = on_progress;
  arc_welder_results r;
  { arc_welder w(a); r = w.process(); }
  std::ostringstream o;
  const arc_welder_progress& p = r.progress;
  o << "{\"id\":\"" << m.at("id") << "\",\"success\":" << (r.success ? "true" : "false") << ",\"cancelled\":" << (r.cancelled ? "true" : "false")
    << ",\"message\":\"" << esc(r.message) << "\",\"pct\":" << num(p.percent_complete) << ",\"lines\":" << p.lines_processed << ",\"gcodes\":" << p.gcodes_processed
    << ",\"pts\":" << p.points_compressed << ",\"arcs\":" << p.arcs_created << ",\"flow\":" << p.arcs_aborted_by_flow_rate
    << ",\"fw\":" << p.num_firmware_compensations << ",\"mglx\":" << p.num_gcode_length_exceptions
    << ",\"ssz\":" << p.source_file_size << ",\"tsz\":" << p.target_file_size << ",\"pos\":" << p.source_file_position
    << ",\"ratio\":" << num(p.compression_ratio) << ",\"cpct\":" << num(p.compression_percent)
    << ",\"seg\":" << stats(p.segment_statistics) << ",\"ret\":" << stats(p.segment_retraction_statistics) << ",\"trv\":" << stats(p.travel_statistics)
    << ",\"t0\":" << num(t0) << ",\"t1\":" << num(now()) << ",\"ev\":[";
  for (size_t i = 0; i < events.size(); i++) {
    const event& e = events[i];
    o << (i ? "," : "") << "[" << num(e.pct) << "," << num(e.el) << "," << num(e.rem) << "," << e.pos << "," << e.ssz << "," << e.tsz << "," << e.lines << "," << e.gcodes << "," << e.arcs << "," << e.pts << "," << num(e.ratio) << "," << num(e.cpct) << "]";
  }
  o << "]}";
  g_events = nullptr;
  return o.str();
}

int main(int argc, char** argv)
{
  // usage: weld_driver jobs.txt results.txt [threads] [log level of one logger shared by all threads]
  if (argc < 3) return 64;
  int nthreads = argc > 3 ? atoi(argv[3]) : 1;
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2], std::ios::app);
  std::vector<std::map<std::string, std::string>> jobs;
  std::string line;
  while (std::getline(in, line)) {
    std::map<std::string, std::string> m; std::stringstream ss(line); std::string kv;
    while (std::getline(ss, kv, '\t')) { size_t p = kv.find('='); if (p != std::string::npos) m[kv.substr(0, p)] = kv.substr(p + 1); }
    if (!m.empty()) jobs.push_back(m);
  }
  std::vector<std::string> names{ ARC_WELDER_LOGGER_NAME }; std::vector<int> levels{ 0 };
  std::mutex mu; std::atomic<size_t> next(0);
  logger shared(names, levels); shared.set_log_level_by_value(argc > 4 ? atoi(argv[4]) : 50);
  auto worker = [&]() {
    logger own(names, levels); own.set_log_level_by_value(50);
    logger& log = argc > 4 ? shared : own;
    for (;;) {
      size_t i = next++;
      if (i >= jobs.size()) break;
      if (nthreads == 1) { out << "BEGIN " << jobs[i]["id"] << std::endl; }
      if (argc <= 4) log.set_log_level_by_value((int)dv(jobs[i], "log", 50));
      std::string r = run_job(jobs[i], &log);
      std::lock_guard<std::mutex> g(mu);
      out << r << std::endl;
    }
  };
  if (nthreads <= 1) worker();
  else { std::vector<std::thread> t; for (int i = 0; i < nthreads; i++) t.emplace_back(worker); for (auto& x : t) x.join(); }
  return 0;
}
