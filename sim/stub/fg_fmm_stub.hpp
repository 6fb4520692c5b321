// Stand-in for the parts of ScalFMM that feeLLGood uses (ScalFMM is not installed in this sandbox).
// Same observable contract as the real Tsm (target/source) algorithm: after execute(), the potential
// of every target has been increased by sum_j q_j / |x_target - x_source_j|.  The sum is done
// directly, in a fixed order, on the calling thread: no truncation error, no schedule.
#ifndef FG_FMM_STUB_HPP
#define FG_FMM_STUB_HPP
#include <cmath>
#include <cstddef>
#include <vector>
#include <deque>
#include <functional>
#include <omp.h>

using FSize = long long;

template <class FReal> class FPoint
    {
    FReal c[3];
public:
    FPoint(FReal x = 0, FReal y = 0, FReal z = 0) : c{x, y, z} {}
    FReal getX() const { return c[0]; }
    FReal getY() const { return c[1]; }
    FReal getZ() const { return c[2]; }
    };

enum class FParticleType { FParticleTypeSource, FParticleTypeTarget };

template <class FReal> class FP2PParticleContainerIndexed
    {
public:
    std::vector<FSize> idx;
    std::vector<FReal> x, y, z, q, pot;
    FSize getNbParticles() const { return idx.size(); }
    const std::vector<FSize> &getIndexes() const { return idx; }
    FReal *getPhysicalValues() { return q.data(); }
    FReal *getPotentials() { return pot.data(); }
    const FReal *getPotentials() const { return pot.data(); }
    void push(const FPoint<FReal> &p, FSize i, FReal v)
        {
        idx.push_back(i);
        x.push_back(p.getX());
        y.push_back(p.getY());
        z.push_back(p.getZ());
        q.push_back(v);
        pot.push_back(0);
        }
    };

template <class FReal, class Container> class FTypedLeaf
    {
    Container src, tgt;
public:
    Container *getSrc() { return &src; }
    Container *getTargets() { return &tgt; }
    };

template <class FReal, int P> class FTypedRotationCell
    {
public:
    void resetToInitialState() {}
    };

template <class FReal, class Cell, class Container, class Leaf> class FOctree
    {
    Leaf leaf;
    Cell cell;
public:
    FOctree(int, int, FReal, const FPoint<FReal> &) {}
    void insert(const FPoint<FReal> &p, FParticleType type, FSize i, FReal v = 0)
        {
        (type == FParticleType::FParticleTypeSource ? leaf.getSrc() : leaf.getTargets())->push(p, i, v);
        }
    template <class F> void forEachLeaf(F f) { f(&leaf); }
    template <class F> void forEachCell(F f) { f(&cell); }
    };

template <class FReal, class Cell, class Container, int P> class FRotationKernel
    {
public:
    FRotationKernel(int, FReal, const FPoint<FReal> &) {}
    };

template <class Octree, class Cell, class Container, class Kernel, class Leaf>
class FFmmAlgorithmThreadTsm
    {
    Octree *tree;
public:
    FFmmAlgorithmThreadTsm(Octree *t, Kernel *) : tree(t) {}
    __attribute__((no_sanitize("thread"))) void execute()
        {
        tree->forEachLeaf([](Leaf *l) { direct(l); });
        }
private:
    __attribute__((no_sanitize("thread"))) static void direct(Leaf *l)
        {
        Container *s = l->getSrc(), *t = l->getTargets();
        const double *sx = s->x.data(), *sy = s->y.data(), *sz = s->z.data(), *sq = s->q.data();
        const double *tx = t->x.data(), *ty = t->y.data(), *tz = t->z.data();
        double *pot = t->pot.data();
        const long ns = s->getNbParticles(), nt = t->getNbParticles();
        for (long i = 0; i < nt; i++)
            {
            double sum = 0;
            for (long j = 0; j < ns; j++)
                {
                double dx = tx[i] - sx[j], dy = ty[i] - sy[j], dz = tz[i] - sz[j];
                sum += sq[j] / std::sqrt(dx * dx + dy * dy + dz * dz);
                }
            pot[i] += sum;
            }
        }
    };
#endif
