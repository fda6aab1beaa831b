// Drives the real parser, position tracker and containers line by line and prints what they report.
#include <gcode_parser.h>
#include <gcode_position.h>
#include <position.h>
#include <utilities.h>
#include <array_list.h>
#include <circular_buffer.h>
#include <unwritten_command.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <map>
#include <memory>
static std::string num(double d)
{
  if (std::isnan(d)) return "\"nan\"";
  if (std::isinf(d)) return d > 0 ? "\"inf\"" : "\"-inf\"";
  char b[64]; snprintf(b, sizeof b, "%.17g", d); return b;
}
static std::string esc(const std::string& s)
{
  std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\"";
}
static std::string dump(const parsed_command& c)
{
  std::string o = "{\"c\":" + esc(c.command) + ",\"g\":" + esc(c.gcode) + ",\"k\":" + esc(c.comment) + ",\"empty\":" + (c.is_empty ? "1" : "0") + ",\"known\":" + (c.is_known_command ? "1" : "0") + ",\"p\":[";
  for (size_t i = 0; i < c.parameters.size(); i++) {
    const parsed_command_parameter& p = c.parameters[i];
    o += std::string(i ? "," : "") + "[" + esc(p.name) + "," + esc(std::string(1, (char)p.value_type)) + "," + num(p.double_value) + "," + std::to_string((int)p.double_precision) + "," + std::to_string(p.unsigned_long_value) + "," + esc(p.string_value) + "]";
  }
  return o + "]}";
}
static std::string dump(position& p)
{
  extruder& e = p.get_current_extruder();
  std::ostringstream o;
  o << "{\"x\":" << (p.x_null ? "null" : num(p.get_gcode_x())) << ",\"y\":" << (p.y_null ? "null" : num(p.get_gcode_y())) << ",\"z\":" << (p.z_null ? "null" : num(p.get_gcode_z()))
    << ",\"e\":" << num(e.get_offset_e()) << ",\"de\":" << num(e.e_relative) << ",\"f\":" << (p.f_null ? "null" : num(p.f)) << ",\"rel\":" << p.is_relative << ",\"erel\":" << p.is_extruder_relative
    << ",\"metric\":" << p.is_metric << ",\"tool\":" << p.current_tool << ",\"retr\":" << num(e.retraction_length) << ",\"extr\":" << num(e.extrusion_length) << ",\"ing\":" << e.is_extruding << ",\"reing\":" << e.is_retracting
    << ",\"moved\":" << p.has_xy_position_changed << ",\"changed\":" << p.has_position_changed << ",\"trav\":" << p.is_travel() << ",\"line\":" << p.file_line_number << ",\"tag\":" << p.feature_type_tag << ",\"cmd\":" << dump(p.command) << ",\"ex\":[";
  for (int i = 0; i < p.num_extruders; i++) { extruder& q = p.get_extruder(i); o << (i ? "," : "") << "[" << num(q.e) << "," << num(q.e_offset) << "," << num(q.retraction_length) << "," << num(q.extrusion_length_total) << "," << num(q.x_firmware_offset) << "," << num(q.y_firmware_offset) << "]"; }
  o << "],\"raw\":[" << num(p.x) << "," << num(p.y) << "," << num(p.z) << "," << num(p.x_offset) << "," << num(p.y_offset) << "," << num(p.z_offset) << "," << p.layer << "," << num(p.height) << "," << num(p.last_extrusion_height) << "]}";
  return o.str();
}
template <class C> static void show(std::ostream& out, C& c)
{
  out << "[";
  for (int i = 0; i < c.count(); i++) out << (i ? "," : "") << esc(c[i]);
  out << "]";
}
// the state derived from the positions
static std::string state(position& p)
{
  std::ostringstream o;
  o << ",\"st\":{\"layer\":" << p.layer << ",\"height\":" << num(p.height) << ",\"leh\":" << (p.last_extrusion_height_null ? "null" : num(p.last_extrusion_height)) << ",\"hinc\":" << p.height_increment << ",\"hincs\":" << p.height_increment_change_count
    << ",\"primed\":" << p.is_printer_primed << ",\"definite\":" << p.has_definite_position << ",\"dz\":" << num(p.z_relative) << ",\"lchange\":" << p.is_layer_change << ",\"hichange\":" << p.is_height_increment_change << ",\"xytravel\":" << p.is_xy_travel
    << ",\"xyztravel\":" << p.is_xyz_travel << ",\"zhop\":" << p.is_zhop << ",\"inside\":" << p.is_in_bounds << ",\"ignored\":" << p.gcode_ignored << ",\"line\":" << p.file_line_number << ",\"gcode\":" << p.gcode_number << ",\"snap\":" << p.can_take_snapshot() << ",\"homed\":[" << p.x_homed << "," << p.y_homed << "," << p.z_homed << "]"
    << ",\"modes\":[" << p.is_relative_null << "," << p.is_extruder_relative_null << "," << p.is_metric_null << "],\"ex\":[";
  for (int i = 0; i < p.num_extruders; i++) { extruder& q = p.get_extruder(i); o << (i ? "," : "") << "[" << num(q.retraction_length) << "," << num(q.extrusion_length) << "," << num(q.deretraction_length) << "," << num(q.extrusion_length_total)
    << "," << q.is_extruding_start << "," << q.is_extruding << "," << q.is_primed << "," << q.is_retracting_start << "," << q.is_retracting << "," << q.is_retracted << "," << q.is_partially_retracted << "," << q.is_deretracting_start << "," << q.is_deretracting << "," << q.is_deretracted << "," << num(q.e_relative) << "," << num(q.x_firmware_offset) << "," << num(q.y_firmware_offset) << "," << num(q.z_firmware_offset) << "]"; }
  o << "]}}";
  return o.str();
}
static std::string full(position& p) { std::string d = dump(p); d.pop_back(); return d + state(p); }
// containers against the same operations in the checker
template <class C> static void container(std::istream& in, std::ostream& out, C& c, C& other)
{
  std::string l; int n = 0;
  while (std::getline(in, l) && l != ".") {
    std::istringstream s(l); std::string op; int k = 0; s >> op >> k;
    try {
      std::string v = "item " + std::to_string(n++) + " with some text that does not fit into a small string";
      if (op == "pf") c.push_front(v); else if (op == "pb") c.push_back(v);
      else if (op == "xf") { std::string r = c.pop_front(); out << "\"" << r << "\""; }
      else if (op == "xb") { std::string r = c.pop_back(); out << "\"" << r << "\""; }
      else if (op == "get") { out << "\"" << c.get(k) << "\""; }
      else if (op == "grow") c.resize(k);
      else if (op == "clear") c.clear();
      else if (op == "copy") { other.copy(c); show(out, other); }
      else if (op == "show") { show(out, c); }
    } catch (std::exception&) { out << "\"exception\""; }
    out << " " << c.count() << " " << c.get_max_size() << "\n";
  }
  out << "." << "\n";
}
int main(int argc, char** argv)
{
  if (argc < 3) return 64;
  std::ifstream in(argv[1], std::ios::binary); std::ofstream out(argv[2], std::ios::binary);
  gcode_parser parser; std::unique_ptr<gcode_position> pos; long n = 0; bool wide = false;
  std::string l;
  while (std::getline(in, l)) {
    if (l.empty()) continue;
    char op = l[0]; std::string a = l.substr(1);
    if (op == 'A') {
      std::istringstream s(a); gcode_position_args g; int buf, ne, shared, zero, g90; s >> buf >> ne >> shared >> zero >> g90;
      g.position_buffer_size = buf; g.set_num_extruders(ne); g.shared_extruder = shared; g.zero_based_extruder = zero; g.g90_influences_extruder = g90;
      g.home_x_none = g.home_y_none = g.home_z_none = true; g.xyz_axis_default_mode = "absolute"; g.e_axis_default_mode = "absolute"; g.units_default = "millimeters"; g.autodetect_position = true;
      g.is_circular_bed = false; g.default_extruder = 0;
      pos.reset(new gcode_position(g)); n = 0; wide = false;
      out << "{}\n";
    }
    else if (op == 'B') {
      std::istringstream s(a); gcode_position_args g; int ne, shared, zero, g90, def, hx, hy, hz, bound, round; std::string xm, em, um;
      s >> g.position_buffer_size >> ne >> shared >> zero >> g90 >> def >> xm >> em >> um >> hx >> g.home_x >> hy >> g.home_y >> hz >> g.home_z >> g.priming_height >> g.minimum_layer_height >> g.height_increment;
      s >> bound >> round >> g.snapshot_x_min >> g.snapshot_x_max >> g.snapshot_y_min >> g.snapshot_y_max >> g.snapshot_z_min >> g.snapshot_z_max;
      g.set_num_extruders(ne); g.shared_extruder = shared; g.zero_based_extruder = zero; g.g90_influences_extruder = g90; g.default_extruder = def; g.xyz_axis_default_mode = xm; g.e_axis_default_mode = em; g.units_default = um;
      g.home_x_none = !hx; g.home_y_none = !hy; g.home_z_none = !hz; g.is_bound_ = bound; g.is_circular_bed = round;
      g.x_min = g.y_min = g.z_min = -1e5; g.x_max = g.y_max = g.z_max = 1e5;
      for (int i = 0; i < ne; i++) { s >> g.retraction_lengths[i] >> g.z_lift_heights[i]; g.x_firmware_offsets[i] = g.y_firmware_offsets[i] = 0; }
      // the settings are passed on by copying and by assigning them
      gcode_position_args copy(g), assigned; assigned = copy;
      pos.reset(new gcode_position(assigned)); n = 0; wide = true;
      out << full(*pos->get_current_position_ptr()) << "\n";
    }
    else if (wide && op == 'L') { parsed_command c; parser.try_parse_gcode(a.c_str(), c, true); ++n; pos->update(c, n, 2 * n, -1); out << full(*pos->get_current_position_ptr()) << "\n"; }
    else if (wide && op == 'U') { int k = atoi(a.c_str()); if (k == 0) pos->undo_update(); else delete[] pos->undo_update(k); out << full(*pos->get_current_position_ptr()) << "\n"; }
    else if (wide && op == 'C') { position q(*pos->get_current_position_ptr()); position r(q.num_extruders); r = q; position s; s = r; position t(s); out << "[" << full(q) << "," << full(r) << "," << full(t) << "," << full(s) << "]\n"; }
    else if (op == 'L') { parsed_command c; parser.try_parse_gcode(a.c_str(), c, true); pos->update(c, ++n, n, -1); out << dump(*pos->get_current_position_ptr()) << "\n"; }
    else if (op == 'U') { int k = atoi(a.c_str()); if (k == 0) pos->undo_update(); else { position* p = pos->undo_update(k); out << "["; for (int i = 0; i < k; i++) out << (i ? "," : "") << dump(p[i]); out << "]\n"; delete[] p; } out << dump(*pos->get_current_position_ptr()) << "\n"; }
    else if (op == 'G') { pos->grow_max_positions(atoi(a.c_str())); out << dump(*pos->get_current_position_ptr()) << "\n"; }
    else if (op == 'H') { out << "["; for (int i = 0; i < atoi(a.c_str()); i++) out << (i ? "," : "") << dump(*pos->get_position_ptr(i)); out << "]\n"; }
    else if (op == 'C') { position q(*pos->get_current_position_ptr()); position r(q.num_extruders); r = q; position s; s = r; position t(s); s = s; out << "[" << dump(q) << "," << dump(r) << "," << dump(t) << "," << dump(s) << "]\n"; }
    else if (op == 'P') { parsed_command c; bool k = parser.try_parse_gcode(a.c_str(), c, true); parsed_command d; parser.try_parse_gcode(a.c_str(), d, false);
      parsed_command e; e.command = "old"; e.comment = "old"; e.clear(); parser.try_parse_gcode(a.c_str(), e); out << "[" << (k ? 1 : 0) << "," << dump(c) << "," << dump(d) << "," << dump(e) << "," << esc(c.to_string()) << "]\n"; }
    else if (op == 'N') { std::istringstream s(a); double v; int p; std::string w; s >> w >> p; v = strtod(w.c_str(), nullptr); out << "[" << esc(utilities::dtos(v, (unsigned char)p)) << "," << utilities::get_num_digits(v) << "," << utilities::get_num_digits(v, p) << "]\n"; }
    else if (op == 'Q') { int m = atoi(a.c_str() + 1); if (a[0] == 'c') { circular_buffer<std::string> c(m), o(1 + m % 3); container(in, out, c, o); } else if (a[0] == 'a') { array_list<std::string> c(m), o(1 + m % 3); container(in, out, c, o); } else { array_list<std::string> c, o; container(in, out, c, o); } }
  }
  return 0;
}
