import sys, os
from driver import Job
PROPS = {}
PROPS['SELF'] = dict(jobs=[Job('selftest.cpp', 'h_sphere', reach=['hit', 'miss']),
                           Job('selftest.cpp', 'h_clampbug'), Job('selftest.cpp', 'h_clampbug', mode='bv'),
                           Job('selftest.cpp', 'h_mat')])
E = ['end']   # the label every straight-line harness reaches
PROPS['G01'] = dict(jobs=[
    Job('geometry.cpp', 'h_mat_compose', reach=E), Job('geometry.cpp', 'h_mat_elem', reach=E),
    Job('geometry.cpp', 'h_mat_equal', reach=E, split=[('elem', 16)]),
    Job('geometry.cpp', 'h_inv_affine', reach=['inverted']), Job('geometry.cpp', 'h_inv_full', reach=['inverted']),
    Job('geometry.cpp', 'h_inv_singular', reach=E), Job('geometry.cpp', 'h_inv_small', reach=E),
    Job('geometry.cpp', 'h_normal', reach=E)])
PROPS['G02'] = dict(jobs=[
    Job('geometry.cpp', 'h_translate_scale', reach=E), Job('geometry.cpp', 'h_rotate', reach=E, split=[('axis', 3)]),
    Job('geometry.cpp', 'h_lookat', reach=E, split=[('upkind', 2)])])
PROPS['G03'] = dict(jobs=[
    Job('geometry.cpp', 'h_aabb_union', reach=E), Job('geometry.cpp', 'h_aabb_point', reach=E),
    Job('geometry.cpp', 'h_aabb_measure', reach=E), Job('geometry.cpp', 'h_aabb_order', reach=E)])
PROPS['P01'] = dict(jobs=[
    Job('shapes.cpp', 'h_sphere', reach=['hit', 'miss']),
    Job('shapes.cpp', 'h_sphere_aim', reach=['hit', 'second', 'masked', 'miss'], split=[('half', 2), ('axis', [1])]),
    Job('shapes.cpp', 'h_sphere_aim', split=[('half', 2), ('axis', [0, 2])], tier='thorough')])
PROPS['P02'] = dict(jobs=[
    Job('shapes.cpp', 'h_tri_sound', reach=['hit', 'miss', 'masked']),
    Job('shapes.cpp', 'h_tri_complete', reach=['hit', 'visible']),
    Job('shapes.cpp', 'h_tri_away', reach=E)])
PROPS['P03'] = dict(jobs=[
    Job('shapes.cpp', 'h_box_sound', reach=['hit', 'miss', 'masked']),
    Job('shapes.cpp', 'h_box_aim', reach=['hit', 'miss'], split=[('face', 6)])])
PROPS['P04'] = dict(jobs=[
    Job('bounds.cpp', 'h_bounds_box', reach=E), Job('bounds.cpp', 'h_bounds_sphere', reach=E), Job('bounds.cpp', 'h_bounds_tri', reach=E),
    Job('bounds.cpp', 'h_bounds_mesh', reach=E), Job('bounds.cpp', 'h_bounds_mesh_world', reach=E),
    Job('bounds.cpp', 'h_area_sphere', reach=E), Job('bounds.cpp', 'h_area_box', reach=E),
    Job('bounds.cpp', 'h_area_tri', reach=E), Job('bounds.cpp', 'h_area_mesh', reach=E)])
PROPS['P05'] = dict(jobs=[
    Job('sampling.cpp', 'h_sample_sphere', reach=E), Job('sampling.cpp', 'h_sample_tri', reach=E),
    Job('sampling.cpp', 'h_sample_tri_uniform', reach=E), Job('sampling.cpp', 'h_sample_box', reach=E),
    Job('meshsample.cpp', 'h_sample_mesh', reach=E)])
PROPS['P06'] = dict(jobs=[
    Job('bvh.cpp', 'h_bvh_walk', reach=['hit', 'miss'], split=[('shape', 6)]),
    Job('bvh.cpp', 'h_bvh_walk', split=[('shape', list(range(6, 12)))], tier='thorough', limit=3000), Job('bvh.cpp', 'h_bvh_deep', reach=E),
    Job('bvhbuild.cpp', 'h_bvh_build', reach=E, split=[('len', 6), ('layout', 6)]),
    Job('bvhbuild.cpp', 'h_bvh_build', split=[('len', [6, 7]), ('layout', 6)], tier='thorough', opts=dict(max_paths=200000))])
PROPS['P07'] = dict(jobs=[
    Job('kdtree.cpp', 'h_kd_walk', reach=['hit', 'miss'], split=[('shape', 4), ('axes', [0]), ('d0', 3)]),
    Job('kdtree.cpp', 'h_kd_walk', split=[('shape', 6), ('axes', 3), ('d0', 3), ('d1', 4)], tier='thorough'),
    Job('kdtree.cpp', 'h_kd_build', reach=E, split=[('count', 2), ('layout', [0, 2, 3])]),
    Job('kdtree.cpp', 'h_kd_build', split=[('count', 2), ('layout', [1])], tier='thorough'),
    Job('kdtree.cpp', 'h_kd_flat', reach=E, split=[('count', 4), ('layout', 4)]),
    Job('kdtree.cpp', 'h_kd_none', reach=E),
    Job('kdtree.cpp', 'h_kd_limit', reach=E, defs=['SET:_MAX_ASSETS_=8'])])
PROPS['P08'] = dict(jobs=[
    Job('asset.cpp', 'h_asset', reach=['hit', 'miss'], split=[('axis', 2)]),
    Job('asset.cpp', 'h_asset', split=[('axis', [2])], tier='thorough'),
    Job('asset.cpp', 'h_asset_frame', reach=E, split=[('axis', 3), ('turn', 3)]),
    Job('asset.cpp', 'h_asset_perp', reach=E, split=[('axis', 3), ('turn', 3), ('pair', 3)])])
PROPS['P09'] = dict(jobs=[
    Job('trace.cpp', 'h_occlusion', reach=['occluded', 'free'], split=[('ricochet', 5), ('ricochet#1', 2), ('hits', 2)])])
PROPS['P10'] = dict(jobs=[
    Job('trace.cpp', 'h_footprint', reach=['spans'], split=[('axis', 3), ('flip', 2), ('flat', [0])]),
    Job('trace.cpp', 'h_footprint', reach=['degenerate'], split=[('axis', 3), ('flip', 2), ('flat', [1])])])
PROPS['F01'] = dict(jobs=[
    Job('render.cpp', 'h_render', reach=E, split=[('stratified', 2), ('height', 5), ('workers', 3)], defs=['SET:SPLIT_SIZE=2']),
    Job('render.cpp', 'h_render', split=[('stratified', 2), ('height', 5), ('workers', [3, 4])], defs=['SET:SPLIT_SIZE=2'], hdefs=['-DSWITCHES=4', '-DWORKERS=5'], tier='thorough')])
PROPS['F02'] = dict(jobs=[
    Job('film.cpp', 'h_film_add', reach=E, opts=dict(fork_round=True), split=[('range', 4), ('half', 4), ('tilex', 3), ('tiley', 3)])])
PROPS['F03'] = dict(jobs=[
    Job('film.cpp', 'h_film_race', reach=E, opts=dict(fork_round=True), split=[('tilex', 3), ('tiley', 3), ('tilex#1', 3), ('tiley#1', 3)]),
    Job('film.cpp', 'h_film_lock', reach=E)])
PROPS['G04'] = dict(jobs=[
    Job('geometry.cpp', 'h_slab', split=[('signs', 8), ('which', 2)]),
    Job('geometry.cpp', 'h_slab_axis', split=[('zero', 6), ('which', 2)])])

PROPS['S01'] = dict(jobs=[Job('samplers.cpp', 'h_sampler', reach=E, split=[('kind', 3), ('w', 3), ('h', 3)])])
PROPS['S02'] = dict(jobs=[
    Job('samplers.cpp', 'h_filter_mitchell', reach=E, split=[('other', 5), ('axis', 2)]), Job('samplers.cpp', 'h_filter_unity', reach=E), Job('samplers.cpp', 'h_filter_simple', reach=E),
    Job('samplers.cpp', 'h_filter_gaussian', reach=E), Job('samplers.cpp', 'h_filter_lanczos', reach=E)])
PROPS['S03'] = dict(jobs=[
    Job('well.cpp', 'h_well', mode='bv', reach=E), Job('well.cpp', 'h_well_step', mode='bv', reach=E, split=[('at', 32)]),
    Job('well.cpp', 'h_well', mode='bv', hdefs=['-DSTEPS=40'], tier='thorough')])
PROPS['C01'] = dict(jobs=[Job('cameras.cpp', 'h_perspective', reach=E, split=[('frame', 3), ('wide', 3)]), Job('cameras.cpp', 'h_perspective_aux', reach=E, split=[('frame', 3), ('wide', 3)])])
PROPS['C02'] = dict(jobs=[Job('cameras.cpp', 'h_ortho', reach=E, split=[('frame', 3), ('wide', 3)])])
PROPS['C03'] = dict(jobs=[Job('cameras.cpp', 'h_360', reach=E, split=[('frame', 3)]), Job('cameras.cpp', 'h_create_ray', reach=E)])
PROPS['P11'] = dict(jobs=[
    Job('meshgrow.cpp', 'h_mesh_grow', reach=E, split=[('initial', 5)], defs=['SET:_MAX_TRIS_=4u'])])
PROPS['M01'] = dict(jobs=[Job('fresnel.cpp', 'h_conductor', reach=E), Job('fresnel.cpp', 'h_dielectric', reach=['total', 'partial'])])
PROPS['M02'] = dict(jobs=[Job('fresnel.cpp', 'h_mirror_metal', reach=E, split=[('side', 2)]), Job('fresnel.cpp', 'h_glass', reach=['total', 'partial'])])
PROPS['M03'] = dict(jobs=[Job('fresnel.cpp', 'h_lambert', reach=E), Job('fresnel.cpp', 'h_hemisphere', reach=E), Job('fresnel.cpp', 'h_oren', reach=E),
                          Job('fresnel.cpp', 'h_oren_swap', reach=E)])
PROPS['M04'] = dict(jobs=[Job('fresnel.cpp', 'h_shading', reach=E, split=[('frame', [0, 2, 5])]), Job('fresnel.cpp', 'h_shading', split=[('frame', [1, 3, 4])], tier='thorough')])
PROPS['M05'] = dict(jobs=[Job('bsdf.cpp', 'h_multi_value', reach=E, split=[('lobes', 4), ('specular', 2)]),
                          Job('bsdf.cpp', 'h_multi_sample', reach=['none', 'specular', 'diffuse'], split=[('lobes', 4), ('specular', 2)]),
                          Job('bsdf.cpp', 'h_single', reach=E), Job('bsdf.cpp', 'h_single_wrong', reach=E)])
PROPS['M06'] = dict(jobs=[Job('bsdf.cpp', 'h_dual', reach=E)])
PROPS['L01'] = dict(jobs=[Job('lights.cpp', 'h_light_sample', reach=['masked', 'seen'], split=[('turn', 3), ('dir', 4)]), Job('lights.cpp', 'h_light_pdf', reach=['miss', 'hit'], split=[('turn', 3)]),
    Job('lights.cpp', 'h_light_emit', reach=E, split=[('turn', 3)])])
PROPS['L02'] = dict(jobs=[Job('integrate.cpp', 'h_direct', reach=['none', 'end'], split=[('lights', 3), ('towards', [1, 2]), ('meets', 4)]),
    Job('integrate.cpp', 'h_direct', split=[('lights', [3]), ('towards', 4), ('meets', 4)], tier='thorough')])
H = dict(hdefs=['-DPATHS'])
PROPS['L03'] = dict(jobs=[Job('integrate.cpp', 'h_path', reach=E, split=[('bounce', 3), ('after_mirror', 2)], **H), Job('integrate.cpp', 'h_roulette', reach=['survives', 'cut'], **H),
    Job('integrate.cpp', 'h_limit', reach=E, **H), Job('integrate.cpp', 'h_radiance', reach=E, **H)])
PROPS['M08'] = dict(jobs=[Job('microfacet.cpp', h, reach=E) for h in ('h_blinn', 'h_blinn_g', 'h_beckmann', 'h_beckmann_g', 'h_ggx', 'h_ggx_g', 'h_aniso', 'h_aniso_g', 'h_aniso_sample')] + [Job('microfacet.cpp', 'h_product', reach=E, split=[('kind', 3)])])
PROPS['M07'] = dict(jobs=[Job('lobe.cpp', 'h_r_value', reach=['other', 'same'], split=[('up', 2)]), Job('lobe.cpp', 'h_r_swap', reach=E), Job('lobe.cpp', 'h_r_sample', reach=['below', 'above'], split=[('up', 2)]),
    Job('lobe.cpp', 'h_t_value', reach=['other', 'same'], split=[('up', 2), ('dense', 2)]), Job('lobe.cpp', 'h_t_sample', reach=['total', 'partial'], split=[('up', 2), ('dense', 2)])])
FR = dict(opts=dict(fork_round=True))
PROPS['T01'] = dict(jobs=[Job('textures.cpp', 'h_nearest', reach=E, split=[('side', 3)], **FR)])
PROPS['T02'] = dict(jobs=[Job('textures.cpp', 'h_levels', reach=E, split=[('side', 3)], **FR), Job('textures.cpp', 'h_bilinear', reach=E, split=[('side', 3), ('how', 2)], **FR),
    Job('textures.cpp', 'h_trilinear', reach=E, split=[('side', 3), ('channel', 4), ('which', 4)], **FR)])
PROPS['T03'] = dict(jobs=[Job('textures.cpp', 'h_ewa', reach=E, split=[('side', 3), ('channel', [0, 2]), ('axes', 9)], **FR),
    Job('textures.cpp', 'h_ewa', split=[('side', 3), ('channel', [1, 3]), ('axes', 9)], tier='thorough', **FR)])
PROPS['T04'] = dict(jobs=[Job('textures.cpp', 'h_repeat', reach=E, split=[('way', 3)], **FR)])
PROPS['T05'] = dict(jobs=[Job('textures.cpp', 'h_mask', reach=E, split=[('channel', 4)])])
