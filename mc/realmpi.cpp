// runs the cases of one operation on Open MPI: realmpi OP DIR; process r writes DIR/out.r
#include <mpi.h>
#include "realcases.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <dirent.h>
#include <unistd.h>
using namespace real;
static void put(FILE* f, const S& s) { fprintf(f, "%zu\n", s.size()); fwrite(s.data(), 1, s.size(), f); fputc('\n', f); }
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv); int w, n; MPI_Comm_rank(MPI_COMM_WORLD, &w); MPI_Comm_size(MPI_COMM_WORLD, &n); S dir = argv[2]; FILE* f = fopen((dir + "/out." + num(w)).c_str(), "w"); if (!f) MPI_Abort(MPI_COMM_WORLD, 3);
  if (chdir(dir.c_str())) MPI_Abort(MPI_COMM_WORLD, 3);
  int i = 0; for (auto& c : cases(atoi(argv[1]))) {
    MPI_Comm m; bool in = w < c.n; MPI_Comm_split(MPI_COMM_WORLD, in ? 0 : MPI_UNDEFINED, c.rev ? c.n - w : w, &m); S o;
    if (in) { int r; MPI_Comm_rank(m, &r); o = num(r) + ":" + run(c, r, m, "set"); MPI_Comm_free(&m); }
    MPI_Barrier(MPI_COMM_WORLD); put(f, o);
    if (w == 0 && c.op == FILES) {   // the files, by name
      std::vector<S> v; DIR* d = opendir("."); while (dirent* e = readdir(d)) if (!strncmp(e->d_name, "set", 3)) v.push_back(e->d_name); closedir(d); std::sort(v.begin(), v.end()); S a;
      for (auto& x : v) { a += x + "="; if (FILE* g = fopen(x.c_str(), "r")) { char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, g)) > 0) a.append(b, k); fclose(g); } a += ";"; unlink(x.c_str()); } put(f, a);
    }
    MPI_Barrier(MPI_COMM_WORLD); i++;
  }
  fprintf(f, "end\n"); fclose(f); MPI_Finalize(); return 0;
}
