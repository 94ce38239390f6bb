#include "common.h"
#include "llvm/Support/CommandLine.h"
#include <cstring>
// fns MODULE OUT: name -> file:line of every defined function
static int cmd_fns(int argc, char **argv) {
  LLVMContext C;
  auto M = loadModule(argv[0], C);
  json::Object o;
  for (auto &F : *M)
    if (!F.isDeclaration()) o[F.getName()] = fnWhere(F);
  std::error_code EC;
  raw_fd_ostream os(argv[1], EC);
  os << json::Value(std::move(o));
  return 0;
}
int main(int argc, char **argv) {
  if (argc < 2) return 3;
  // straight-line scenarios run to thousands of instructions: memory queries must see across all of them
  const char *opts[] = {"libo-sa", "-memdep-block-scan-limit=4000", "-memdep-block-number-limit=1000", "-memssa-check-limit=2000",
                        "-dse-memoryssa-scanlimit=4000", "-dse-memoryssa-walklimit=4000", "-dse-memoryssa-partial-store-limit=50",
                        "-earlycse-mssa-optimization-cap=100000", "-capture-tracking-max-uses-to-explore=4000", "-vectorize-slp=false", "-vectorize-loops=false"};
  cl::ParseCommandLineOptions(sizeof opts / sizeof *opts, opts);
  if (!strcmp(argv[1], "nf")) return cmd_nf(argc - 2, argv + 2);
  if (!strcmp(argv[1], "fns")) return cmd_fns(argc - 2, argv + 2);
  errs() << "unknown command\n";
  return 3;
}
