// Drives the real logger: levels are set and messages logged as told; every answer follows a marker on both outputs.
#include <logger.h>
#include <fstream>
#include <iostream>
#include <sstream>
static std::string unhex(const std::string& h)
{
  std::string o;
  for (size_t i = 0; i + 1 < h.size(); i += 2) o += (char)std::stoi(h.substr(i, 2), NULL, 16);
  return o;
}
int main(int argc, char** argv)
{
  std::ifstream in(argv[1]);
  std::string line;
  logger* p = NULL;
  long k = 0;
  while (std::getline(in, line))
  {
    std::cout << "\x01" << k << "\n"; std::cout.flush();
    std::cerr << "\x01" << k << "\n"; k++;
    std::istringstream s(line);
    std::string op, a, b, c; s >> op >> a >> b >> c;
    if (op == "new")
    {
      delete p;
      std::vector<std::string> names; std::vector<int> levels;
      std::istringstream t(a); std::string n;
      while (std::getline(t, n, ',')) { names.push_back(n); levels.push_back(0); }
      p = new logger(names, levels);
    }
    else if (op == "all") p->set_log_level((log_levels)atoi(a.c_str()));
    else if (op == "one") p->set_log_level(atoi(a.c_str()), (log_levels)atoi(b.c_str()));
    else if (op == "allv") p->set_log_level_by_value(atoi(a.c_str()));
    else if (op == "onev") p->set_log_level_by_value(atoi(a.c_str()), atoi(b.c_str()));
    else if (op == "name") std::cout << "\x02" << p->get_log_level_name(a) << "\n";
    else if (op == "value") std::cout << "\x02" << logger::get_log_level_value((log_levels)atoi(a.c_str())) << "\n";
    else if (op == "index") std::cout << "\x02" << logger::get_log_level_for_value(atoi(a.c_str())) << "\n";
    else if (op == "on") std::cout << "\x02" << (p->is_log_level_enabled(atoi(a.c_str()), (log_levels)atoi(b.c_str())) ? 1 : 0) << "\n";
    else if (op == "log") p->log(atoi(a.c_str()), (log_levels)atoi(b.c_str()), unhex(c));
    else if (op == "logx") p->log(atoi(a.c_str()), (log_levels)atoi(b.c_str()), unhex(c), true);
    else if (op == "exc") p->log_exception(atoi(a.c_str()), unhex(b));
  }
  delete p;
  return 0;
}
