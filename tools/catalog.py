REAL = ('Exact-real semantics for the floating point code, every input within the stated ranges; float rounding is '
        'outside the encoding, and a counterexample is only reported after the natively compiled code reproduces it.')
BV = 'Bit-precise semantics for every input within the stated bounds; counterexamples are replayed natively.'
P = []
NA = []


def p(id, title, statement, over, forall, why, files, mech, note=REAL, tech=None):
    d = dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why, files=files, mech=mech, note=note)
    if tech:
        d['tech'] = tech
    P.append(d)


G = 'src/geometry/'
p('G01', 'Matrix algebra, inverse and transformation of points, vectors, normals, rays',
  'Sums, differences, products and transposes of 4x4 matrices are the mathematical ones in all their spellings, and a '
  'product applied to a point, vector or ray equals applying the right factor first and then the left one. Inverting '
  'any non-singular matrix, including placements with a very small uniform scale, succeeds and yields its two-sided inverse, while a '
  'singular matrix is refused and the output left untouched. A normal transformed with the inverse stays perpendicular '
  'to every transformed tangent, and transforming a ray preserves its parameter.',
  ['inputs'], 'all matrices with entries in a range, all points, vectors, normals and rays',
  'The tests try a few fixed matrices; an error in one of the 16 cofactors or products only shows for general matrices.',
  [G + 'matrix4.cpp', G + 'matrix4.hpp'],
  [('Matrix4::inverse', G + 'matrix4.cpp'), ('Matrix4::operator*', G + 'matrix4.cpp'), ('transform_normal', G + 'matrix4.cpp')])
p('G02', 'Translations, scales, rotations and look-at matrices do what they say',
  'A translation moves points by the given offset and leaves vectors alone, and a scale multiplies each coordinate. A '
  'rotation about an axis is a rigid, handedness-preserving rotation by the given angle about that axis. A look-at matrix '
  'places the origin at the eye, is orthonormal, and sends forward exactly towards the target with left perpendicular to the up vector.',
  ['inputs'], 'all offsets, factors, angles, eyes, targets and up vectors (not parallel to the view direction)',
  'The tests compare printed matrices for a handful of angles and poses.',
  [G + 'matrix4.cpp'], [('Matrix4::set_*', G + 'matrix4.cpp'), ('Matrix4::set_lookAt_inverse', G + 'matrix4.cpp')])
p('G03', 'Bounding box algebra: unions, membership, size, ordering',
  'Joining a box with another box or with a point yields the smallest box containing both, the empty box being neutral, '
  'and a point is reported inside exactly when it is within the bounds of every axis. Surface, volume, centre, expansion and longest axis '
  'are those of the box, and boxes are totally ordered by their surface.',
  ['inputs'], 'all boxes and points in a range', 'The tests use a few hand-written boxes.',
  [G + 'AABB.cpp'], [('AABB', G + 'AABB.cpp')])
p('G04', 'Ray/bounding-box test is exact',
  'A ray is reported to miss a box only if no point of its line is inside the box. When it is reported to hit, the points of the line '
  'inside the box are exactly those whose parameter lies between the reported entry and exit, for every sign of the '
  'direction and for directions with zero components, in both the plain and the precomputed variants.',
  ['inputs'], 'all rays and boxes in a range (directions with components that are zero or not tiny)',
  'The tests fire a few rays; a swapped bound or a wrong early exit shows only for particular sign and overlap patterns.',
  [G + 'AABB.cpp', G + 'ray.hpp'], [('AABB::intersect', G + 'AABB.cpp'), ('RayProperties', G + 'ray.hpp')])
S = 'src/primitives/'
p('P01', 'Ray/sphere intersection returns the first visible point of the surface',
  'Intersecting a ray with the unit sphere reports a hit exactly when the ray meets the surface ahead of its origin and no farther than '
  'the best distance so far; the reported distance is the nearest such one, the point lies on the sphere and on the ray, and the normal is radial. '
  'A miss leaves the best distance and the hit record untouched, and a point hidden by the alpha mask never counts as a hit.',
  ['inputs'], 'all ray origins, directions, best-so-far distances, and all answers of the alpha mask',
  'The tests fire a few axis-aligned rays; root selection and masking depend on the whole input space.',
  [S + 'sphere.cpp', 'src/utility/utility.hpp'], [('Sphere::intersect', S + 'sphere.cpp'), ('equation2', 'src/utility/utility.hpp')])
p('P02', 'Ray/triangle intersection is sound, complete and filters its mask right',
  'A reported triangle hit lies on the ray at the reported distance and inside the triangle, with texture coordinates and '
  'shading normal interpolated from the vertices, and it is nearer than the best distance so far; a miss leaves distance and record alone. '
  'A ray aimed at any interior point from outside the plane hits it whenever that is nearer than the best so far and the mask lets it through. '
  'The alpha mask is consulted with the texture coordinates of the hit and with their own footprint.',
  ['inputs'], 'all triangles, rays, texture coordinates, best-so-far distances and answers of the mask',
  'The tests fire a few rays at fixed triangles with the same texture coordinates.',
  [S + 'triangle.cpp'], [('Triangle::intersect', S + 'triangle.cpp')])
P[-1]['statement'] = ('A reported triangle hit lies on the ray at the reported distance and inside the triangle, carries texture coordinates and '
  'a normal interpolated from the vertices, and is nearer than the best distance so far, while a miss leaves distance and record alone. '
  'A ray aimed at any interior point hits it whenever that is nearer than the best so far and the mask lets it through. '
  'The alpha mask is consulted with the texture coordinates of the hit and with the footprint of these coordinates, each in its own slot.')
p('P03', 'Ray/box intersection finds the nearest visible face',
  'A reported hit on the unit box lies on the ray, on one of its six faces, nearer than the best distance so far, and carries the outward normal of that face. '
  'A ray aimed at any point of a face from outside, or leaving through it from inside, reports that face, and a miss leaves distance and record alone.',
  ['inputs'], 'all rays and best-so-far distances, all six faces',
  'The tests fire a few rays at the centres of faces from outside.',
  [S + 'box.cpp'], [('Box::intersect', S + 'box.cpp')])
p('P04', 'World bounds enclose every shape and world areas follow its scale',
  'For any affine placement the world bounding box of a sphere, box, triangle or mesh encloses the transformed shape. The world area of a shape under '
  'scale and rotation is that of the scaled shape, and the cumulative area tables used for light sampling add up face by face to the total area.',
  ['inputs'], 'all affine placements with entries in a range, all vertices (meshes of two triangles)',
  'The tests compare a few numbers for scale-only matrices.',
  [S + 'sphere.cpp', S + 'box.cpp', S + 'triangle.cpp', S + 'mesh.cpp', S + 'shape.cpp'],
  [('compute_AABB', S + 'mesh.cpp'), ('surface', S + 'triangle.cpp'), ('get_densities_array', S + 'mesh.cpp')])
p('P05', 'Points sampled on a shape lie on it, in the face chosen by area',
  'A point drawn on a sphere, triangle, box or mesh lies on its surface with the normal of that place, for every pair of random numbers. '
  'A triangle is covered uniformly, and a face of a box or a triangle of a mesh is chosen exactly when the random number falls in its slice of the cumulative area table.',
  ['inputs'], 'all random numbers in [0,1), all vertices and area tables (meshes of up to three triangles)',
  'The tests draw with a few fixed random numbers.',
  [S + 'sphere.cpp', S + 'triangle.cpp', S + 'box.cpp', S + 'mesh.cpp'],
  [('sample_point', S + 'mesh.cpp'), ('Triangle::sample_point', S + 'triangle.cpp')])
A = 'src/accelerators/'
p('P06', 'A mesh hierarchy answers like testing every triangle',
  'Walking the hierarchy of a mesh reports the nearest visible triangle among all of them, nearer than the best distance so far, and leaves the record alone on a miss, '
  'for hierarchies of any shape and depth up to the limit of triangles. Building the hierarchy keeps every triangle in exactly one leaf, and every node encloses what is below it.',
  ['inputs'], 'all rays, boxes and triangle answers over tree shapes up to five leaves, all surface-area orderings for meshes of up to eight triangles',
  'The tests compare one mesh with a handful of rays; a wrong skip or split only shows for particular overlaps.',
  [A + 'bvh.cpp', 'src/primitives/mesh.cpp'], [('Bvh::intersect', A + 'bvh.cpp'), ('Bvh::buildTree', A + 'bvh.cpp')])
p('P07', 'The scene index answers like testing every asset',
  'Intersecting the scene through its spatial index reports the nearest visible asset among all of them and names it, or a miss when there is none. '
  'Building the index keeps every asset reachable from every part of space its bounds touch, flat assets included, and never writes beyond its storage, also at the limit of assets.',
  ['inputs'], 'all rays, split planes and asset answers over tree shapes up to five leaves, all bounding-box layouts of up to four assets',
  'The tests use one small scene; dropped assets show only for coincident split planes and flat boxes.',
  [A + 'kdtree.cpp'], [('KdTree::intersect', A + 'kdtree.cpp'), ('KdTree::buildTree', A + 'kdtree.cpp')])
p('P08', 'A placed asset is hit exactly where its transformed shape is',
  'An asset is hit exactly when its shape is hit by the ray brought into object space, at the same distance, with the point reported in world space. '
  'The reported normal and tangents have unit length, and normal and tangents stay perpendicular under any scale, with outside staying outside. '
  'The alpha mask of the asset is the one consulted, and the texture coordinates and face are passed on.',
  ['inputs'], 'all rotations about an axis, scales (mirrored ones included), translations, rays and answers of the shape',
  'The tests place one sphere; a normal transformed with the wrong matrix shows only under non-uniform scale.',
  [S + 'asset.cpp', G + 'vec3.cpp'], [('Asset::intersect', S + 'asset.cpp'), ('transform_normal', G + 'matrix4.cpp')])
p('P09', 'A shadow ray is occluded exactly when something lies in front of the light',
  'The occlusion test answers yes exactly when some asset meets the ray before the expected distance, up to the stated epsilon, whatever was asked before and whichever bounce asks. '
  'The memory of the last occluder never changes an answer. A shadow ray is never filtered with a footprint nobody computed.',
  ['histories', 'inputs'], 'all histories of two queries over three assets with any hits, distances, origins and bounce numbers',
  'The tests ask a few questions; a stale cached occluder shows only after particular sequences.',
  ['src/utility/occlusion_tester.cpp', S + 'hit_point.hpp'], [('OcclusionTester::is_occluded', 'src/utility/occlusion_tester.cpp')])
p('P10', 'The footprint of a pixel leads to where its neighbours look',
  'The texture footprint computed at a hit, applied along the two surface tangents, leads to the points where the rays of the neighbouring pixels along x and y meet the tangent plane. '
  'A footprint is declared available exactly when the tangents span the plane.',
  ['inputs'], 'all hit points, normals, tangents and auxiliary rays not parallel to the plane',
  'No test calls it; a swapped coefficient only blurs textures.',
  [S + 'hit_point.cpp'], [('calculate_differentials', S + 'hit_point.cpp')])
p('F01', 'Every pixel is rendered its number of times, by whichever workers',
  'Rendering an image gives every pixel exactly the requested number of samples, each shaded with its own ray, hit and footprint and handed to the film once, '
  'for any image height, number of workers and either sampler. Samples lie in the tile the worker was given, and the image is saved only after every worker is done, with no lock left taken or taken twice.',
  ['schedules', 'inputs'], 'all image heights up to 5, up to three workers, all points at which a waiting worker may run (two switches)',
  'The tests of the renderer cover its parser; lost or repeated tiles show only for odd sizes and for particular schedules.',
  ['src/renderer.cpp', 'src/utility/executor_data.hpp', 'src/samplers/sampler.cpp'], [('Renderer::render', 'src/renderer.cpp'), ('render_internal', 'src/renderer.cpp')])
p('F02', 'A sample weighs on exactly the pixels within reach of the filter',
  'Adding a sample to the film adds its colour, weighted by the filter at the offset of each pixel centre, to every pixel of the image within the range of the filter and to no other, '
  'with negative channels counted as zero and what was accumulated before kept.',
  ['inputs'], 'all sample positions in all tile positions (corners, edges, middle) and colours, filter ranges up to 4',
  'The tests add a few samples; an off-by-one at the border of the image or of a tile only shows for particular positions.',
  ['src/cameras/image_film.cpp'], [('ImageFilm::add_pixel', 'src/cameras/image_film.cpp')])
p('F03', 'Workers never lose or race on what they add to the film',
  'A pixel that one worker writes without the lock is written by no other worker. Contributions put off while the film is busy are added exactly once under the lock, '
  'whatever other workers add meanwhile, and the lock is always given back.',
  ['schedules', 'inputs'], 'all pairs of tiles and sample positions, all points at which another worker may take the lock',
  'A lost update needs two workers at the border between their tiles at the same moment.',
  ['src/cameras/image_film.cpp'], [('ImageFilm::add_pixel_deferred', 'src/cameras/image_film.cpp'), ('ImageFilm::add_pixel_forced', 'src/cameras/image_film.cpp')])
p('P11', 'A mesh keeps every triangle it is given',
  'Adding triangles one by one keeps each of them as given and in order, up to the limit of triangles per mesh and whatever number of triangles was announced beforehand, without ever writing beyond the storage. '
  'The index is built over all of them, the bounds enclose them tightly, and a mesh can be destroyed at any point.',
  ['inputs', 'histories'], 'all numbers of triangles up to past a limit of four, all announced sizes up to four, finalized or not, all vertices',
  'The tests announce sensible sizes and always finalize.',
  [S + 'mesh.cpp', 'src/accelerators/bvh.hpp'], [('Mesh::add_triangle', S + 'mesh.cpp'), ('Mesh::finalize', S + 'mesh.cpp')])
Q = 'src/samplers/'
p('S01', 'Samplers cover every pixel of their tile evenly and stop',
  'A sampler hands out each pixel of its tile exactly once, with the requested number of samples inside that pixel, and then reports exhaustion without writing anything. '
  'Stratified samples fall one in each stratum, in the middle of it when jitter is off, and every random coordinate uses a fresh random number spread uniformly over its area.',
  ['inputs', 'histories'], 'all tile positions, tiles up to three by three pixels, all random numbers, jitter on and off',
  'The tests check counts and ranges for one tile.',
  [Q + 'sampler_stratified.cpp', Q + 'sampler_random.cpp', Q + 'sampler.cpp'], [('get_samples', Q + 'sampler_stratified.cpp'), ('get_samples', Q + 'sampler_random.cpp')])
p('S02', 'Reconstruction filters have the published shape',
  'Each filter weighs a sample by its documented curve: constant box, linear tent, Gaussian shifted to end at zero, Mitchell-Netravali cubic with any two parameters, windowed sinc. '
  'Curves fade to zero at the end of the declared range, and tent and cubic weights of the pixels around a sample sum up to the same amount wherever the sample falls.',
  ['inputs'], 'all offsets within the ranges, all filter parameters',
  'The tests compare a few printed weights.',
  [Q + 'filter_mitchell.cpp', Q + 'filter_lanczos.cpp', Q + 'filter_gaussian.cpp', Q + 'filter_tent.cpp', Q + 'filter_box.cpp'],
  [('MitchellFilter::weight', Q + 'filter_mitchell.cpp'), ('LanczosFilter::weight', Q + 'filter_lanczos.cpp')])
p('S03', 'The random number generator is the published WELL1024a',
  'From any seed and any position, every call advances the 1024 bit state exactly by the published recurrence and returns the fresh word over two to the 32nd, which lies between zero and one. '
  'The seed given is copied and left alone.',
  ['histories', 'inputs'], 'all states at all 32 positions for one step, all seeds for the first calls',
  'The tests look at averages; a wrong shift passes them.',
  ['src/utility/wellrng.cpp'], [('WELLrng::next_float', 'src/utility/wellrng.cpp')], note=BV)
K = 'src/cameras/'
p('C01', 'Perspective rays pass through their pixel',
  'The ray of a pixel leaves from the eye, has unit length and passes through the position of that pixel on the image plane for any resolution, field of view and pose. '
  'The auxiliary rays pass through the neighbouring pixels one step along x and y.',
  ['inputs'], 'all sample positions, fields of view, eyes and poses, for wide, tall and square images',
  'The tests check two or three rays of fixed cameras.',
  [K + 'camera_perspective.cpp', K + 'camera.cpp'], [('create_ray', K + 'camera_perspective.cpp'), ('create_ray_auxiliary', K + 'camera_perspective.cpp')])
p('C02', 'Orthographic rays are parallel and start at their pixel',
  'The rays of an orthographic camera all point along the view direction and start at the place of their pixel on the image plane, scaled to the screen size, '
  'and the auxiliary rays start exactly one pixel further along x and y.',
  ['inputs'], 'all sample positions, screen sizes and poses, for wide, tall and square images',
  'The tests check a few rays of a fixed camera.',
  [K + 'camera_orthographic.cpp'], [('create_ray', K + 'camera_orthographic.cpp'), ('create_ray_auxiliary', K + 'camera_orthographic.cpp')])
p('C03', 'Panoramic rays sweep the sphere; auxiliary rays belong to the next pixels',
  'The panoramic camera sends the ray of a pixel in the direction whose longitude and latitude are those of the pixel, from the eye and with unit length. '
  'For every camera the auxiliary rays of a sample are the rays of the pixels one step along x and y.',
  ['inputs'], 'all sample positions, resolutions and poses',
  'The tests check a few rays of a fixed camera.',
  [K + 'camera360.cpp', K + 'camera.cpp'], [('create_ray', K + 'camera360.cpp'), ('Camera::create_ray', K + 'camera.cpp')])
M = 'src/materials/'
p('M01', 'Reflectance of conductors and dielectrics follows Fresnel',
  'The reflected fraction of a metal and of a transparent material is the mean of the Fresnel equations of both polarisations, for every angle and every pair of refraction indices. '
  'It always lies between zero and one, and beyond the critical angle everything is reflected.',
  ['inputs'], 'all angles and all refraction indices and absorptions in a physical range',
  'The tests compare a few numbers of two materials.',
  [M + 'fresnel_conditions.cpp', M + 'fresnel_conditions.hpp'], [('Conductor::eval', M + 'fresnel_conditions.cpp'), ('Dielectric::eval', M + 'fresnel_conditions.cpp')])
p('M02', 'Mirrors and smooth glass obey the law of reflection and the law of Snell',
  'A mirror sends light only into the mirrored direction and glass only into the mirrored and the refracted one, from either side, in the proportion of the Fresnel equations. '
  'Beyond the critical angle nothing is refracted and everything is reflected; what is reflected and what is refracted add up to what arrived.',
  ['inputs'], 'all directions on both sides, all refraction indices in a physical range',
  'The tests compare a few directions and values.',
  [M + 'reflection.cpp', M + 'refraction.cpp'], [('ConductorReflection::sample_value', M + 'reflection.cpp'), ('DielectricReflection::sample_value', M + 'reflection.cpp'), ('Refraction::sample_value', M + 'refraction.cpp')])
p('M03', 'Diffuse surfaces: Lambert, Oren-Nayar and cosine sampling',
  'A Lambertian surface scatters evenly and an Oren-Nayar surface by its published qualitative model for any roughness, unchanged when viewer and light are swapped or when the surface turns about its normal. '
  'Sampled directions lie on the side of the viewer with cosine-weighted density, and the density and value reported are those of the direction returned.',
  ['inputs'], 'all pairs of directions, all roughnesses, all random numbers',
  'The tests compare a few values and directions.',
  [M + 'oren_nayar.cpp', M + 'lambertian.cpp', M + 'bdf.cpp'], [('OrenNayar::value', M + 'oren_nayar.cpp'), ('Bdf::sample_value', M + 'bdf.cpp'), ('Bdf::pdf', M + 'bdf.cpp')])
p('M04', 'Directions move between world and shading space without distortion',
  'The shading space of a hit has the shading normal as its third axis and is orthonormal, so that turning a direction into it and back gives the same direction and keeps lengths and angles.',
  ['inputs'], 'all directions, several normal and tangent frames',
  'The tests convert two vectors.',
  [M + 'shading_space.cpp'], [('ShadingSpace::to_shading', M + 'shading_space.cpp'), ('ShadingSpace::to_world', M + 'shading_space.cpp')])
p('M05', 'A layered surface adds its lobes and averages their densities',
  'The value of a surface is the sum of the matching lobes, each tinted by its own texture; reflections count on the viewer side and transmissions on the other, judged by the geometric normal. '
  'The density is the mean over the matching lobes, the lobe sampled is chosen evenly by the random number, and specular lobes count only when they are the one sampled.',
  ['inputs'], 'all combinations of up to three lobes with arbitrary answers, all directions and random numbers',
  'The tests use one or two fixed lobes.',
  [M + 'multi_bsdf.cpp', M + 'single_brdf.cpp'], [('MultiBSDF::value', M + 'multi_bsdf.cpp'), ('MultiBSDF::sample_value', M + 'multi_bsdf.cpp'), ('MultiBSDF::pdf', M + 'multi_bsdf.cpp')])
p('M06', 'A mixed material uses its mask to pick one of two surfaces',
  'Where the mask is set the first surface answers and elsewhere the second one, for values, samples and densities alike, and the answer is handed on untouched.',
  ['inputs'], 'all mask answers, all arguments and answers of the two surfaces',
  'The tests check one mask.',
  [M + 'dual.cpp'], [('DualBsdf::value', M + 'dual.cpp')])
L = 'src/lights/'
I = 'src/integrators/'
p('L01', 'Area lights are sampled with the density they report',
  'Wherever and however scaled a light is placed, sampling it from a point gives the true world direction and distance of the first visible point of the light, its density per solid angle, and light only on the side of the normal; masked points give none. '
  'The density reported for any other direction is the same quantity, and rays leaving the light start on it, on the side of the normal.',
  ['inputs'], 'all points, distances and areas, several rotations, scales and mirrorings, several directions and normals',
  'The tests sample one sphere without scaling.',
  [L + 'area_light.cpp'], [('AreaLight::sample_visible_surface', L + 'area_light.cpp'), ('AreaLight::pdf', L + 'area_light.cpp'), ('AreaLight::sample_surface', L + 'area_light.cpp')])
p('L02', 'Direct lighting counts every light exactly once',
  'The light arriving directly at a point is estimated by one evenly chosen light, sampled both from the light and from the surface, weighed by the power heuristic so that both together count it once and scaled by the number of lights. '
  'Occluded samples, lights facing away, samples of zero density and directions that meet anything but that light contribute nothing.',
  ['inputs', 'histories'], 'up to three lights and all answers of light, surface, occlusion and intersection',
  'No test looks at the integrator.',
  [I + 'ray_tracer.cpp'], [('direct_l', I + 'ray_tracer.cpp')])
p('L03', 'Paths gather light without bias and end',
  'A path adds at each vertex the direct light and, for the first vertex or after a mirror only, the light emitted towards the viewer, multiplied by what the previous vertices let through. '
  'Cutting paths at random leaves the expectation unchanged, the first bounces are never cut and no path exceeds the bounce limit.',
  ['inputs', 'histories'], 'all answers of surfaces, lights and intersections for three vertices from every bounce, all random numbers',
  'No test looks at the integrator.',
  [I + 'path_tracer.cpp'], [('PathTracer::l_rec', I + 'path_tracer.cpp'), ('PathTracer::radiance', I + 'path_tracer.cpp')])
p('M07', 'Rough reflection and transmission follow the microfacet model',
  'Rough reflection is slopes times shadowing times reflectance over four cosines, unchanged when viewer and light are swapped; rough transmission follows the formula of Walter et al.; neither passes light to the wrong side. '
  'Sampled directions are the half vector mirrored or refracted, with the value and density of the pair of directions, and are refused below the surface and beyond the critical angle.',
  ['inputs'], 'all answers of distribution and reflectance, several directions and half vectors on both sides, two pairs of refraction indices',
  'The tests compare printed numbers for one distribution.',
  [M + 'microfacet.cpp'], [('MicrofacetR::value', M + 'microfacet.cpp'), ('MicrofacetR::sample_value', M + 'microfacet.cpp'), ('MicrofacetT::value', M + 'microfacet.cpp'), ('MicrofacetT::pdf', M + 'microfacet.cpp')])
p('M08', 'Microfacet distributions are sampled by their own density',
  'Blinn, Beckmann and both GGX distributions have the published slopes, shadowing and masking between zero and one, and half vectors on the side of the viewer sampled by the inverse of the distribution with uniform azimuth, stretched with the roughness. '
  'The density reported for a half vector is that of the samples.',
  ['inputs'], 'all roughnesses and exponents, all tilts at four azimuths, all random numbers',
  'The tests compare means over forty angles of one roughness.',
  [M + 'microfacet_distributions.cpp'], [('GGXaniso::sample_wh', M + 'microfacet_distributions.cpp'), ('GGXiso::D', M + 'microfacet_distributions.cpp'), ('Beckmann::sample_wh', M + 'microfacet_distributions.cpp')])
X = 'src/textures/'
p('T01', 'An unfiltered texture answers with the texel under the point',
  'A lookup without filter answers, for every point of the image up to and including its border, with the colour of the texel whose area contains the point, in the right row and column, with every channel in its place, never reading outside the image.',
  ['inputs'], 'all points in the unit square away from texel borders, and on the border of the image, all texel values, square images of sides 1, 2 and 4',
  'The tests look at a handful of points of one image.',
  [X + 'image_map.cpp'], [('ImageMapUnfiltered::filter', X + 'image_map.cpp')])
p('T02', 'A trilinear texture blends four texels and two levels',
  'Each smaller level of an image averages the four texels below it, down to a single texel. A level is read by weighing the four texels around the point by their closeness, repeating at the border, and two neighbouring levels are blended by the width of the footprint: one texel wide or less reads the first level, as wide as the image or more the last. '
  'No footprint and no point reads outside an image or outside the levels.',
  ['inputs'], 'all texel values and places between texels, several footprints, images of sides 1, 2 and 4',
  'The tests sample few points of one image and compare printed values.',
  [X + 'image_map.cpp'], [('ImageMapTrilinear::filter', X + 'image_map.cpp'), ('ImageMap::bilinear', X + 'image_map.cpp'), ('ImageMap::ImageMap', X + 'image_map.cpp')])
p('T03', 'Anisotropic filtering averages the texels inside the footprint',
  'The elliptical filter answers with the mean of the texels inside the ellipse spanned by the two derivatives, each widened by a texel, weighed by a gaussian of their distance from the centre, on the two levels that match the shorter axis (limited to a thirtieth of the longer one). '
  'It reads inside the image for every point, also across the border, where the image repeats.',
  ['inputs'], 'all texel values, several points and pairs of derivatives, images of sides 1, 2 and 4',
  'The tests compare printed values for one image.',
  [X + 'image_map.cpp'], [('ImageMapEWA::ewa', X + 'image_map.cpp'), ('ImageMapEWA::filter', X + 'image_map.cpp')])
p('T04', 'Textures are scaled, shifted and repeated over the surface',
  'The coordinates of the surface are scaled and shifted per axis, repeat at every integer in both directions, also below zero, and always land inside the image. The derivatives are scaled with the factor of their own axis, and are zero when the surface has none or the texture is not filtered; the colour found is handed on unchanged.',
  ['inputs'], 'all surface coordinates, shifts, scales and derivatives in a range',
  'The tests use one positive coordinate and equal scales.',
  [X + 'texture_image.cpp'], [('TextureImage::map_value', X + 'texture_image.cpp')])
p('T05', 'Cut-out masks show a surface exactly where they are bright',
  'A surface is visible exactly where the chosen channel of its mask reaches 128 out of 255, or exactly where it does not when the mask is inverted; without a mask it is visible everywhere.',
  ['inputs'], 'all texel values, all channels, inverted or not',
  'The tests check two texels.',
  [X + 'mask_boolean.cpp'], [('MaskBoolean::is_visible', X + 'mask_boolean.cpp'), ('MaskBoolean::is_masked', X + 'mask_boolean.cpp')])
