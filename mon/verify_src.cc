// C12: puts chosen assignments to Formula::verifyModel() of src/.
#include <fstream>
#include <iostream>
#include <string>
#include <cstring>
#include "Global.h"
#include "Formula.h"
int main(int argc, char **argv) {
  CommandLine *cl = new CommandLine;
  ParseCommandLine(cl, argc, argv);
  Formula *f = new Formula(cl);
  f->BuildFormula(cl);
  std::ifstream in("assign.txt");
  int search, k;
  in >> search >> k;
  if (search) { if (cl->WATCH) f->WatchedLiterals(0); else f->NonChronoBacktrack(0); }
  int n = (int)f->VARLIST.size() - 1;
  while (k-- > 0) {
    for (int v = 1; v <= n; v++) {
      int x;
      in >> x;
      for (int d = 0; d < f->VARLIST[v]->DOMAINSIZE; d++) f->VARLIST[v]->ATOMASSIGN[d] = d == x ? 1 : -1;
      f->VARLIST[v]->VAL = x;
    }
    bool ok = f->verifyModel();
    std::cout << "\nVERIFY " << (ok ? 1 : 0) << std::endl;
  }
  return 0;
}
