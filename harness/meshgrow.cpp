#include "sym.h"
#include "primitives/mesh.hpp"
#include "accelerators/bvh.hpp"

// what the index was built from
static Triangle* bt_tris = 0;
static int bt_len = -1, bt_n = 0;
void Bvh::buildTree(Triangle* t, int len)
{
    bt_tris = t;
    bt_len = len;
    bt_n++;
}
// any number of triangles up to the limit (overridden to 4 here) for any initial size
HARNESS(h_mesh_grow)
{
    int init = sym_choice("initial", 5), n = sym_choice("added", 7), kind = sym_choice("way", 2), fin = sym_choice("finalize", 2);
    int want = n < (int)_MAX_TRIS_ ? n : (int)_MAX_TRIS_;
    Vertex v[7][3];
    for(int i = 0; i < n; i++)
        for(int k = 0; k < 3; k++)
        {
            float x = ((i * 3 + k) * 7 + 5) % 16, y = -(((i * 3 + k) * 3 + 1) % 16), z = ((i * 3 + k) * 5) % 16 - 8;
            if(!fin || n <= 1)
            {
                x = sym_float("x", -9, 9);
                y = sym_float("y", -9, 9);
                z = sym_float("z", -9, 9);
            }
            float nx = sym_float("nx", -1, 1), u = sym_float("u", 0, 1);
            v[i][k].p = Point3(x, y, z);
            v[i][k].n = Normal(nx, 0.5f, -nx);
            v[i][k].t = Point2(u, 1 - u);
        }
    {
        Mesh m(init);
        for(int i = 0; i < n; i++)
            if(kind)
                m.add_triangle(&v[i][0], &v[i][1], &v[i][2]);
            else
                m.add_triangle(v[i][0].p, v[i][1].p, v[i][2].p, v[i][0].n);
        if(fin)
        {
            m.finalize();
            sym_assert((bt_n == 1) & (bt_tris == m.tris) & (bt_len == want), "the index is built over the triangles");
            float lo[3] = {999, 999, 999}, hi[3] = {-999, -999, -999};
            for(int i = 0; i < want; i++)
                for(int k = 0; k < 3; k++)
                    for(int a = 0; a < 3; a++)
                    {
                        float c = v[i][k].p[a];
                        lo[a] = sym_ite_f(c < lo[a], c, lo[a]);
                        hi[a] = sym_ite_f(c > hi[a], c, hi[a]);
                    }
            AABB b = m.compute_AABB();
            if(want)
                sym_assert((b.bounds[0].x == lo[0]) & (b.bounds[0].y == lo[1]) & (b.bounds[0].z == lo[2]) & (b.bounds[1].x == hi[0]) &
                           (b.bounds[1].y == hi[1]) & (b.bounds[1].z == hi[2]), "the box of the mesh is the tight box of its triangles");
        }
        sym_assert(m.get_faces_number() == want, "every triangle up to the limit is kept");
        bool same = true;
        for(int i = 0; i < want; i++)
        {
            const Vertex* w[3] = {&m.tris[i].a, &m.tris[i].b, &m.tris[i].c};
            for(int k = 0; k < 3; k++)
            {
                const Vertex& g = v[i][kind ? k : k];
                const Vertex& h = v[i][kind ? k : 0];
                same = same & (w[k]->p.x == g.p.x) & (w[k]->p.y == g.p.y) & (w[k]->p.z == g.p.z) & (w[k]->n.x == h.n.x) &
                       (w[k]->n.y == h.n.y) & (w[k]->n.z == h.n.z);
                if(kind)
                    same = same & (w[k]->t.x == g.t.x) & (w[k]->t.y == g.t.y);
            }
        }
        sym_assert(same, "triangles are kept as given and in order");
    }
    sym_reach("end");
}
