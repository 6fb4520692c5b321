// Driver for the algebra library: reads jobs from the file given as argument, runs them with the
// real SparseMatrix and solvers (parallel regions under the simulator's scheduler), writes results.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <execution>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "config.h"
#include "algebra/algebra.h"
#include "algebra/bicg.h"
#include "algebra/cg.h"

using namespace algebra;

struct Elem { std::vector<int> ij; std::vector<double> v; };

static void out(FILE *f, const char *name, const std::vector<double> &x)
    {
    fprintf(f, "%s", name);
    for (double v : x) fprintf(f, " %a", v);
    fprintf(f, "\n");
    }

int feellgood_main(int argc, char **argv)
    {
    std::ifstream in(argv[1]);
    FILE *f = fopen("out.txt", "w");
    std::string word;
    int n = 0;
    SparseMatrix *A = nullptr;
    MatrixShape shape;
    std::vector<Elem> elems;
    std::vector<double> x, b, xd;
    std::vector<int> ld;
    auto readv = [&](std::vector<double> &v)
        {
        int k; in >> k; v.resize(k);
        for (double &e : v) { std::string s; in >> s; e = strtod(s.c_str(), nullptr); }
        };
    while (in >> word)
        {
        if (word == "n") { in >> n; shape.assign(n, {}); }
        else if (word == "shape") { int k; in >> k; while (k--) { int i, j; in >> i >> j; shape[i].insert(j); } }
        else if (word == "make") { delete A; A = new SparseMatrix(shape); }
        else if (word == "elems")
            {
            int ne; in >> ne; elems.assign(ne, {});
            for (Elem &e : elems)
                {
                int k; in >> k; e.ij.resize(2 * k); e.v.resize(k);
                for (int q = 0; q < k; q++)
                    { std::string s; in >> e.ij[2 * q] >> e.ij[2 * q + 1] >> s; e.v[q] = strtod(s.c_str(), nullptr); }
                }
            }
        else if (word == "assemble")
            {
            std::for_each(EXEC_POL, elems.begin(), elems.end(), [&](const Elem &e)
                {
                for (size_t q = 0; q < e.v.size(); q++) A->add(e.ij[2 * q], e.ij[2 * q + 1], e.v[q]);
                });
            }
        else if (word == "clear") A->clear();
        else if (word == "set") { int i, j; std::string s; in >> i >> j >> s; A->set(i, j, strtod(s.c_str(), nullptr)); }
        else if (word == "dump")
            {
            std::vector<double> all;
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) all.push_back((*A)(i, j));
            out(f, "dump", all);
            }
        else if (word == "x") readv(x);
        else if (word == "b") readv(b);
        else if (word == "xd") readv(xd);
        else if (word == "ld") { std::vector<double> t; readv(t); ld.assign(t.begin(), t.end()); }
        else if (word == "mult") { std::vector<double> y(n, -7.0); mult(*A, x, y); out(f, "mult", y); }
        else if (word == "precond") { std::vector<double> d(n); A->build_diag_precond<double>(d); out(f, "precond", d); }
        else if (word == "solve")
            {
            // one monitor serves all the solves with the same limits, as in the program
            std::string algo, tol; int maxiter, noise;
            in >> algo >> tol >> maxiter >> noise;
            static std::map<std::string, std::unique_ptr<iteration<double>>> monitors;
            auto &m = monitors[tol + "/" + std::to_string(maxiter) + "/" + std::to_string(noise)];
            if (!m) m.reset(new iteration<double>("sim", strtod(tol.c_str(), nullptr), noise, maxiter));
            iteration<double> &it = *m;
            it.reset();
            std::vector<double> y(x);
            double ret = 0;
            if (algo == "bicg") bicg<double>(it, *A, y, b);
            else if (algo == "cg") cg<double>(it, *A, y, b);
            else if (algo == "bicg_dir") bicg_dir<double>(it, *A, y, b, xd, ld);
            else if (algo == "cg_dir") cg_dir<double>(it, *A, y, b, xd, ld);
            else if (algo == "bicg_mask") ret = bicg_dir<double>(it, *A, y, b, ld);
            fprintf(f, "status %d %d %a %a\n", (int) it.status, it.get_iteration(), it.get_res(), it.get_rhsnorm());
            out(f, "sol", y);
            }
        }
    fclose(f);
    delete A;
    return 0;
    }
