#include "sym.h"
#include "cameras/camera_perspective.hpp"
#include "cameras/camera_orthographic.hpp"
#include "cameras/camera360.hpp"
#include "utility/utility.hpp"
#include <cmath>

// ---- cameras, seen through any rigid frame (the look-at matrix itself is the subject of another check)
static float L[3], U[3], D[3], O[3];     // world directions of camera x, y, z and the eye
void Matrix4::set_lookAt_inverse(const Point3& pos, const Point3&, const Vec3&)
{
    float v[16] = {L[0], U[0], D[0], pos.x, L[1], U[1], D[1], pos.y, L[2], U[2], D[2], pos.z, 0, 0, 0, 1};
    *this = Matrix4(v);
}
static void frame()
{
    // rigid frames that mix up all axes and signs
    static const int l[3][3] = {{1, 0, 0}, {0, -1, 0}, {0, 0, 1}}, u[3][3] = {{0, 1, 0}, {0, 0, 1}, {-1, 0, 0}};
    int k = sym_choice("frame", 3);
    for(int i = 0; i < 3; i++)
    {
        L[i] = l[k][i];
        U[i] = u[k][i];
    }
    for(int i = 0; i < 3; i++)
        D[i] = L[(i + 1) % 3] * U[(i + 2) % 3] - L[(i + 2) % 3] * U[(i + 1) % 3];
    for(int i = 0; i < 3; i++)
        O[i] = sym_float("eye", -100, 100);
}
static int W, H;
static void size()
{
    int k = sym_choice("wide", 3);
    static const int ws[3] = {4, 16, 2048}, hs[3] = {8, 16, 1024};
    W = ws[k];
    H = hs[k];
}
// screen coordinates of a position on the film: x grows to the right from -1, y falls from +1, the shorter side spans [-1,1]
static void screen(const Sample& s, float* x, float* y)
{
    float ar = (float)W / H;
    *x = (2 * s.posx / W - 1) * (ar > 1 ? ar : 1);
    *y = (1 - 2 * s.posy / H) * (ar > 1 ? 1 : 1 / ar);
}
static float at(int i, float x, float y, float z) { return L[i] * x + U[i] * y + D[i] * z; }
static void along(const Vec3& d, float x, float y, float z, const char* what)
{
    // d = k*(x,y,z) of the frame with k > 0, of unit length
    float e0 = at(0, x, y, z), e1 = at(1, x, y, z), e2 = at(2, x, y, z);
    sym_assert(sym_near(d.x * e1, d.y * e0, 1e-3f) & sym_near(d.y * e2, d.z * e1, 1e-3f) & sym_near(d.z * e0, d.x * e2, 1e-3f), what);
    sym_assert(d.x * e0 + d.y * e1 + d.z * e2 > 0, "rays point forward");
    sym_assert(sym_near(d.x * d.x + d.y * d.y + d.z * d.z, 1, 1e-3f), "ray directions have unit length");
}
static Sample pos()
{
    Sample s;
    s.posx = sym_float("posx", 0, 1);
    s.posy = sym_float("posy", 0, 1);
    s.posx *= W;
    s.posy *= H;
    return s;
}
static bool same(const Ray& a, const Ray& b)
{
    return sym_near(a.origin.x, b.origin.x, 1e-3f) & sym_near(a.origin.y, b.origin.y, 1e-3f) & sym_near(a.origin.z, b.origin.z, 1e-3f) &
           sym_near(a.direction.x, b.direction.x, 1e-3f) & sym_near(a.direction.y, b.direction.y, 1e-3f) & sym_near(a.direction.z, b.direction.z, 1e-3f);
}
HARNESS(h_perspective)
{
    frame();
    size();
    float fov = sym_float("fov", 0.5f, 2.5f), t = tanf(fov / 2);
    sym_assume((cosf(fov / 2) > 0.25f) & (sinf(fov / 2) > 0.25f));
    Point3 eye(O[0], O[1], O[2]), target(0, 0, 0);
    Vec3 up(0, 1, 0);
    CameraPerspective cam(&eye, &target, &up, W, H, fov);
    Sample s = pos();
    float x, y;
    screen(s, &x, &y);
    Ray r;
    ((Camera*)&cam)->create_ray(&s, &r);
    sym_assert((r.origin.x == O[0]) & (r.origin.y == O[1]) & (r.origin.z == O[2]), "rays leave from the eye");
    along(r.direction, x * t, y * t, 1, "the ray of a film position points to its place on the image plane");
    sym_reach("end");
}
HARNESS(h_perspective_aux)
{
    frame();
    size();
    float fov = sym_float("fov", 0.5f, 2.5f), t = tanf(fov / 2);
    sym_assume((cosf(fov / 2) > 0.25f) & (sinf(fov / 2) > 0.25f));
    Point3 eye(O[0], O[1], O[2]), target(0, 0, 0);
    Vec3 up(0, 1, 0);
    CameraPerspective cam(&eye, &target, &up, W, H, fov);
    Sample s = pos(), sx = s, sy = s;
    sx.posx += 1;
    sy.posy += 1;
    float x, y;
    Ray r, rx, ry;
    cam.create_ray(&s, &r, &rx, &ry);
    bool ok = true;
    const Ray* all[3] = {&r, &rx, &ry};
    for(int i = 0; i < 3; i++)
        ok &= (all[i]->origin.x == O[0]) & (all[i]->origin.y == O[1]) & (all[i]->origin.z == O[2]);
    sym_assert(ok, "rays and auxiliary rays leave from the eye");
    screen(s, &x, &y);
    along(r.direction, x * t, y * t, 1, "the ray with footprint is the ray of the film position");
    screen(sx, &x, &y);
    along(rx.direction, x * t, y * t, 1, "the first auxiliary ray is that of the next pixel in x");
    screen(sy, &x, &y);
    along(ry.direction, x * t, y * t, 1, "the second auxiliary ray is that of the next pixel in y");
    sym_reach("end");
}
HARNESS(h_ortho)
{
    frame();
    size();
    Point3 eye(O[0], O[1], O[2]), target(0, 0, 0);
    Vec3 up(0, 1, 0);
    CameraOrthographic cam(&eye, &target, &up, W, H);
    Sample s = pos(), all[3] = {s, s, s};
    all[1].posx += 1;
    all[2].posy += 1;
    Ray r[4];
    cam.create_ray(&s, &r[0], &r[1], &r[2]);
    ((Camera*)&cam)->create_ray(&s, &r[3]);
    static const char* what[4] = {"the ray with footprint leaves from its place on the image plane", "the first auxiliary ray leaves from the next pixel in x",
                                  "the second auxiliary ray leaves from the next pixel in y", "the ray of a film position leaves from its place on the image plane"};
    for(int i = 0; i < 4; i++)
    {
        float x, y;
        screen(all[i % 3], &x, &y);
        sym_assert(sym_near(r[i].origin.x, O[0] + at(0, x, y, 0), 1e-3f) & sym_near(r[i].origin.y, O[1] + at(1, x, y, 0), 1e-3f) & sym_near(r[i].origin.z, O[2] + at(2, x, y, 0), 1e-3f), what[i]);
        sym_assert(sym_near(r[i].direction.x, D[0], 1e-5f) & sym_near(r[i].direction.y, D[1], 1e-5f) & sym_near(r[i].direction.z, D[2], 1e-5f), "all rays are parallel to the view direction");
    }
    sym_reach("end");
}
HARNESS(h_360)
{
    frame();
    size();
    Point3 eye(O[0], O[1], O[2]), target(0, 0, 0);
    Vec3 up(0, 1, 0);
    Camera360 cam(&eye, &target, &up, W, H);
    Sample s = pos();
    Ray r;
    ((Camera*)&cam)->create_ray(&s, &r);
    float theta = ONE_PI * s.posy / H, phi = TWO_PI * s.posx / W;
    float st = sinf(theta), ct = cosf(theta), sp = sinf(phi), cp = cosf(phi);
    sym_assert((r.origin.x == O[0]) & (r.origin.y == O[1]) & (r.origin.z == O[2]), "rays leave from the eye");
    float x = st * cp, y = ct, z = st * sp;
    sym_assert(sym_near(r.direction.x, at(0, x, y, z), 1e-3f) & sym_near(r.direction.y, at(1, x, y, z), 1e-3f) & sym_near(r.direction.z, at(2, x, y, z), 1e-3f),
               "the film maps to the sphere of directions by latitude and longitude");
    sym_reach("end");
}
// the generic auxiliary rays are those of the next pixels
struct Any : public Camera
{
    Any(const Point3* p, const Point3* t, const Vec3* u) : Camera(p, t, u, 4, 4) {}
    void create_single_ray(const Sample* s, Point3* o, Vec3* d) const
    {
        *o = Point3(s->posx, s->posy, 1);
        *d = Vec3(s->posy * 2, s->posx * 3, 4);
    }
};
HARNESS(h_create_ray)
{
    Point3 eye(0, 0, 0), target(0, 0, 1);
    Vec3 up(0, 1, 0);
    L[0] = U[1] = D[2] = 1;
    Any cam(&eye, &target, &up);
    W = H = 4;
    Sample s = pos();
    float px = s.posx, py = s.posy;
    Ray r[4];
    Camera* c = &cam;
    c->create_ray(&s, &r[0], &r[1], &r[2]);
    c->create_ray(&s, &r[3]);
    bool ok = true;
    for(int i = 0; i < 4; i++)
    {
        float x = px + (i == 1), y = py + (i == 2);
        ok &= (r[i].origin.x == x) & (r[i].origin.y == y) & (r[i].origin.z == 1) & (r[i].direction.x == y * 2) & (r[i].direction.y == x * 3) & (r[i].direction.z == 4);
    }
    sym_assert(ok, "auxiliary rays are those of the next pixels");
    sym_assert((s.posx == px) & (s.posy == py), "the sample is left alone");
    sym_reach("end");
}
