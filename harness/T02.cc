// the layout of the message-passing build: (node, local site) against the global coordinate, and the sets, on every node
#include "par.h"
#include "qdp_util.h"
void harness_main() {
  par_start(); int kind = (int)sym_param("kind", 0), nodes = qmpnet().nodes, vol = par_vol();
  if (sym_param("mayreject", 0)) sym_allow_abort(1);
  multi1d<int> x(Nd); for (int i = 0; i < Nd; i++) x[i] = sym_range("x", 0, par_n[i] - 1);
  int node = sym_range("node", 0, nodes - 1);
  ParTable tf; if (kind == 1) { tf.nc = (int)sym_param("nc", 2); for (int i = 0; i < vol; i++) tf.tab[i] = sym_choose("col", 0, tf.nc - 1); }
  par_run([&](int me) {
    if (!par_clean()) return;
    sym_allow_abort(0);
    const multi1d<int>& g = Layout::logicalSize(); int nv = Layout::sitesOnNode();
    sym_assert(Layout::vol() == vol && Layout::numNodes() == nodes && Layout::nodeNumber() == me && nv * nodes == vol && Layout::primaryNode() == (me == 0), "sizes");
    int sv = 1; for (int i = 0; i < Nd; i++) { sv *= Layout::subgridLattSize()[i]; sym_assert(Layout::subgridLattSize()[i] * g[i] == par_n[i], "the machine grid divides the lattice"); } sym_assert(sv == nv, "subgrid volume");
    { multi1d<int> c = Layout::getLogicalCoordFrom(me); bool ok = true; for (int i = 0; i < Nd; i++) ok = ok & (c[i] == Layout::nodeCoord()[i]) & (c[i] >= 0) & (c[i] < g[i]); sym_assert(ok && Layout::getNodeNumberFrom(c) == me, "machine coordinates of a node"); }
    if (kind == 0) {
      int n = Layout::nodeNumber(x), l = Layout::linearSiteIndex(x);
      sym_assert(n >= 0 && n < nodes && l >= 0 && l < nv, "a coordinate has a node and a local site");
      multi1d<int> y = Layout::siteCoords(n, l); bool ok = true; for (int i = 0; i < Nd; i++) ok = ok & (y[i] == x[i]); sym_assert(ok, "coordinate to node and site and back");
      int t = sym_range("t", 0, nv - 1); multi1d<int> z = Layout::siteCoords(node, t); ok = true; for (int i = 0; i < Nd; i++) ok = ok & (z[i] >= 0) & (z[i] < par_n[i]); sym_assert(ok, "coordinate in range");
      sym_assert(Layout::nodeNumber(z) == node && Layout::linearSiteIndex(z) == t, "node and site to coordinate and back");
      for (int i = 0; i < Nd; i++) sym_assert(z[i] / Layout::subgridLattSize()[i] == Layout::getLogicalCoordFrom(node)[i], "a node holds one block of the lattice");
      multi1d<int> m = Layout::siteCoords(me, t); for (int mu = 0; mu < Nd; mu++) { LatticeInteger c = Layout::latticeCoordinate(mu); sym_assert(word(c.elem(t), 0) == m[mu], "coordinate field"); }
      int cc[4]; Layout::QDPXX_getSiteCoords(cc, node, t); ok = true; for (int i = 0; i < Nd; i++) ok = ok & (cc[i] == z[i]); int xx[4] = {x[0], x[1], x[2], x[3]}; sym_assert(ok && Layout::QDPXX_getLinearSiteIndex(xx) == l && Layout::QDPXX_nodeNumber(xx) == n, "C interface");
      sym_assert(Layout::linearSiteIndex(local_site(x, Layout::lattSize())) == l, "site index of a lexicographic site"); multi1d<int> w = crtesn(par_rank(x), Layout::lattSize()); ok = true; for (int i = 0; i < Nd; i++) ok = ok & (w[i] == x[i]); sym_assert(ok, "lexicographic numbering");
      // checkerboards of the lattice
#if QDP_USE_CB2_LAYOUT == 1
      sym_assert(((z[0] + z[1] + z[2] + z[3]) & 1) == (t >= nv / 2), "checkerboard halves");
#elif QDP_USE_CB3D_LAYOUT == 1
      sym_assert(((z[0] + z[1] + z[2]) & 1) == (t >= nv / 2), "3d checkerboard halves");
#endif
    } else {
      // every site of the node is in the subsets its global coordinate says
      Set s; if (kind == 1) s.make(tf);
      for (int q = 0; q < (kind == 1 ? 1 : 3); q++) {
        const Set& e = kind == 1 ? s : q == 0 ? rb : q == 1 ? rb3 : mcb; int nsub = e.numSubsets(); sym_assert(nsub == (kind == 1 ? tf.nc : q < 2 ? 2 : 1 << (Nd + 1)), "number of subsets");
        for (int c = 0; c < nsub; c++) {
          const multi1d<int>& tab = e[c].siteTable(); int k = 0; bool ok = e[c].numSiteTable() == tab.size(), in = true;
          for (int i = 0; i < nv; i++) { multi1d<int> y = Layout::siteCoords(me, i); int want = kind == 1 ? tf(y) : q == 0 ? (y[0] + y[1] + y[2] + y[3]) & 1 : q == 1 ? (y[0] + y[1] + y[2]) & 1 : (y[0] & 1) | (y[1] & 1) << 1 | (y[2] & 1) << 2 | (y[3] & 1) << 3 | (((y[0] >> 1) + (y[1] >> 1) + (y[2] >> 1) + (y[3] >> 1)) & 1) << 4;
            if (want == c) { if (k < tab.size()) ok = ok & (tab[k] == i); else ok = false; k++; } in = in & (e.latticeColoring()[i] == want); }
          sym_assert(ok && k == tab.size(), "a subset lists exactly its sites of this node"); sym_assert(in, "colouring of the node's sites");
          if (e[c].hasOrderedRep() && k > 0) { bool o = e[c].end() - e[c].start() + 1 == k && e[c].start() == tab[0]; sym_assert(o, "contiguous range of a subset"); }
        }
      }
      sym_assert(all.numSiteTable() == nv && all.hasOrderedRep() && all.start() == 0 && all.end() == nv - 1, "the whole lattice");
    }
  });
  sym_cover("end");
}
