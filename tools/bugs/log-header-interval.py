prop="C26"
needs='a run of 75 iterations or more with printing enabled'
breaks='the row of every 25th iteration from the 75th on is lost: only the repeated header is printed'
edits=[("include/proxsuite-nlp/logger.hpp","    if (values.iter % print_outline_every() == 0)\n      start();","    if (values.iter % print_outline_every() == 0) {\n      start();\n      if (values.iter > 2 * print_outline_every())\n        return;\n    }")]
demo=r'''
#include "proxsuite-nlp/fwd.hpp"
#include "proxsuite-nlp/logger.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
using namespace proxsuite::nlp;
int main() {
  int o = dup(1), f = open("out.txt", O_CREAT | O_TRUNC | O_WRONLY, 0600);
  dup2(f, 1);
  BaseLogger l;
  l.start();
  for (size_t i = 1; i <= 100; i++) l.log(LogRecord{i, 1, 1, 1, 1, 0, -1, 1, -1, 1});
  fflush(stdout);
  dup2(o, 1);
  std::ifstream in("out.txt");
  std::string s; int rows = 0;
  while (std::getline(in, s)) if (s.find("iter") == s.npos && s.find("e") != s.npos) rows++;
  std::cout << rows << "\n";
  return rows == 100 ? 0 : 1;
}
'''
