#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the wording, the
anchors and the ids are edited in one place)."""
import json
import os

P = []


def prop(pid, title, statement, over, text, why, mech, state=None, observe=()):
    assert len(title) <= 80, (pid, len(title))
    files = []
    for _, w in mech:
        f = w.split(":")[0]
        if f not in files:
            files.append(f)
    d = {"id": pid, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": list(observe), "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)


prop("C01", "Cartesian-to-Cartesian remapping is exact and conservative",
     "Remapping a 1D, 2D or 3D pixelised field onto any other uniform grid gives, in every output pixel, the overlap-length/area/volume weighted average of the input pixels, where parts of an output pixel outside the input grid count as zero. Consequently the integral over any output grid that contains the input grid is unchanged, an identical grid gives the identical field, and an output pixel wholly inside the input never leaves the range of the input values. Missing values (NaN) reach the output pixels that overlap them, and no others. This holds for scalar or per-axis box sizes, origins and numbers of divisions, whatever the relative position and resolution of the two grids.",
     ["inputs", "configurations"],
     "all numbers of dimensions (1-3), input shapes, box sizes, origins, output divisions, relative offsets (nested, shifted, disjoint, touching, aligned edges), field values and memory layouts",
     "No test calls the remapping; the overlap logic depends on floating-point edge comparisons, so single examples cannot reach aligned edges, partial first/last pixels, disjoint grids and buffer lengths.",
     [("grid2grid1D/2D/3D", "magpie/remap/grid2grid.py:grid2grid1D"),
      ("pixel overlap weights", "magpie/src/remap_utils.f90:remap_1d_grid2grid_pixel"),
      ("1D kernel", "magpie/src/remap_1d_grid2grid.f90:remap_1d_grid2grid"),
      ("2D kernel", "magpie/src/remap_2d_grid2grid.f90:remap_2d_grid2grid"),
      ("3D kernel", "magpie/src/remap_3d_grid2grid.f90:remap_3d_grid2grid")],
     observe=["return value of magpie.remap.grid2grid1D/2D/3D"])

prop("C02", "1D rebinning is the overlap-weighted mean for arbitrary bins",
     "Rebinning binned 1D data onto arbitrary new bin edges gives, for every new bin, the mean of the data weighted by the length of the overlap with each old bin (times the caller's weights when given), and NaN exactly for the new bins that overlap no old bin. Bins which only touch do not contribute (not even a NaN), new bins equal to the old ones reproduce the data, and the relative weights reported for a single bin are the same overlaps.",
     ["inputs"],
     "all increasing old and new edges (uniform or not, integer or float, aligned, partially or fully outside the old range), data and non-negative weights (not all zero in a bin)",
     "No test covers rebinning; the code branches on how many old edges fall inside the new bin and on whether they are the first or last, so each combination of alignments is a separate behaviour.",
     [("rebin_1d", "magpie/one_d/one_d.py:rebin_1d"),
      ("single bin weights", "magpie/one_d/one_d.py:rebin_1d_single_bin_weights")],
     observe=["return value of magpie.one_d.rebin_1d and rebin_1d_single_bin_weights"])

prop("C03", "1D rebinning propagates errors consistently",
     "When errors are supplied, the error of a new bin is that of the overlap-weighted mean of the old bins, with the variance of a partially covered old bin enlarged by the inverse of the covered fraction, and the caller's weights entering as in the mean. It is NaN exactly where the mean is NaN, reproduces the input errors when the bins are unchanged, scales linearly with the errors, and asking for errors never changes the values.",
     ["inputs"],
     "all increasing old and new edges, data, positive errors and positive weights",
     "No test covers errors; a wrong overlap or normalisation is visible only for particular alignments, non-uniform bins or non-uniform weights.",
     [("rebin_1d with sigma", "magpie/one_d/one_d.py:rebin_1d")],
     observe=["second return value of magpie.one_d.rebin_1d"])

prop("C04", "Monte Carlo box-to-ring remapping samples the right pixels",
     "Each polar pixel of the Monte Carlo remapping of a 2D field is an average of the values of exactly those box pixels which that polar pixel overlaps (taking account of the centre and of the rotation of the grid), with weights that converge to the overlap areas, and an optional weight map multiplying them. A constant field is returned unchanged, the result is linear in the field, never leaves the range of the overlapped values, and is NaN exactly where no part of the polar pixel falls inside the box; the in-bounds mask is 1 or 0 accordingly.",
     ["inputs", "configurations"],
     "all boxes (any extent, non-square, one or more pixels), polar grids (linear or logarithmic, partial angular range, any centre and rotation), sample sizes and fields",
     "No test touches the remapping classes; geometry, axis order and angle wrapping only show for asymmetric boxes, off-centre grids, partial ranges and rotations, and the result is random.",
     [("weights", "magpie/montecarlo/box2ring.py:Box2Ring.get_weights"),
      ("remap", "magpie/montecarlo/box2ring.py:Box2Ring.remap"),
      ("setup", "magpie/montecarlo/box2ring.py:Box2Ring.setup_polar_lin"),
      ("mask", "magpie/montecarlo/box2ring.py:Box2Ring.get_mask_in_bound")],
     observe=["Box2Ring.remap return value", "Box2Ring.mask_in_bound after get_mask_in_bound"])

prop("C05", "Dense-grid box-to-ring remapping is the area-weighted subgrid mean",
     "Each polar pixel of the dense-grid remapping of a 2D field is the area-weighted mean, over its subdivision into a given number of radial and angular subpixels, of the field at the subpixel centres, with subpixels outside the box counted as zero and an optional weight map multiplying field and area. This holds for any box, centre, partial angular range, rotation and pair of subdivision factors, and the in-bounds mask is the fraction of the polar pixel found inside the box.",
     ["inputs", "configurations"],
     "all boxes, polar grids, centres, rotations, subdivision factors in r and phi, fields and weights",
     "No test touches the remapping classes; mixing up the two subdivision factors or axes is invisible for the symmetric default settings.",
     [("setup", "magpie/densegrid/box2ring.py:Box2Ring.setup_polar"),
      ("remap", "magpie/densegrid/box2ring.py:Box2Ring.remap"),
      ("mask", "magpie/densegrid/box2ring.py:Box2Ring.get_mask_in_bound")],
     observe=["Box2Ring.remap return value", "Box2Ring.mask_in_bound"])

prop("C06", "Radial profiles are the masked azimuthal averages of polar data",
     "The radial profile of polar data is the (weighted) mean over the angular pixels, with errors equal to the standard error of that mean corrected by the ratio of the original pixel area to the polar pixel area, where the polar pixel areas are the exact annular-sector (or spherical-cap-sector) areas. Polar pixels which the in-bounds mask does not give as wholly inside the box (dense grid), or of which no part is inside (Monte Carlo), are excluded from the profile without changing the caller's arrays. The cumulative profile starts at zero and adds area times value ring by ring, with errors added in quadrature.",
     ["inputs", "configurations"],
     "all radial and angular edges (uniform or not in radius), fields, errors, weights and masks, for both families of remapping classes",
     "No test covers profiles; errors, weights and partial coverage interact, and a wrong normalisation shows only with non-uniform weights or boundary-crossing grids.",
     [("areas and means", "magpie/polar/polar2radial.py:polar2radial"),
      ("cumulative", "magpie/polar/radial.py:cumulative_radial"),
      ("box, Monte Carlo", "magpie/montecarlo/box2ring.py:Box2Ring.polar2radial"),
      ("box, dense grid", "magpie/densegrid/box2ring.py:Box2Ring.polar2radial"),
      ("sphere, Monte Carlo", "magpie/montecarlo/heal2ring.py:Heal2Ring.polar2radial"),
      ("sphere, dense grid", "magpie/densegrid/heal2ring.py:Heal2Ring.polar2radial")],
     observe=["return values of polar2radial, get_polar_area2d, cumulative_radial"])

prop("C07", "Monte Carlo cube-to-shell remapping samples the right voxels",
     "Each HEALPix pixel of each radial shell of the Monte Carlo remapping of a 3D field is an average of the values of exactly those voxels which that pixel-shell overlaps about the chosen centre, with weights that converge to the overlap volumes and an optional weight map multiplying them. A constant field is returned unchanged, the result is linear in the field and stays within the range of the overlapped values, and pixels wholly outside the cube are marked as unseen.",
     ["inputs", "configurations"],
     "all cubes (non-cubic extents and divisions), centres, radial ranges (linear or logarithmic), resolutions and fields",
     "No test touches the class; axis order and the radial distribution only show for asymmetric fields and volumes, and the result is random.",
     [("weights", "magpie/montecarlo/cube2shell.py:Cube2Shell.get_weights"),
      ("remap", "magpie/montecarlo/cube2shell.py:Cube2Shell.remap")],
     observe=["Cube2Shell.remap return value"])

prop("C08", "Dense-grid cube-to-shell remapping is the volume-weighted mean",
     "Each HEALPix pixel of each radial shell of the dense-grid remapping of a 3D field is the mean, over its sub-pixels at the finer resolution and its sub-shells weighted by their volume, of the field at their centres, with points outside the cube counted as zero. When periodic images are requested along an axis, each image of the cube shifted by whole box lengths along that axis contributes the same field.",
     ["inputs", "configurations"],
     "all cubes, centres, radial ranges, resolutions, subdivision factors, ranges of periodic images and fields",
     "No test touches the class; axis order, shell weights and image ranges only show with asymmetric fields, several sub-shells and off-centre observers.",
     [("setup", "magpie/densegrid/cube2shell.py:Cube2Shell.setup_polar"),
      ("remap", "magpie/densegrid/cube2shell.py:Cube2Shell.remap")],
     observe=["Cube2Shell.remap return value"])

prop("C09", "Dense-grid sphere-to-polar-cap remapping is the area-weighted mean",
     "Each pixel of a polar-cap (ring) grid about any point of the sphere is the mean of the HEALPix map at the centres of its subpixels weighted by their area on the sphere, where the cap grid is the grid about the north pole, spun by the requested angle and carried rigidly to the requested centre. An optional weight map multiplies map and area, and a constant map is returned unchanged.",
     ["inputs", "configurations"],
     "all map resolutions, cap ranges in both angles, centres, spins, subdivision factors, maps and weights",
     "No test touches the class; the effect of the rotation, the subdivision factors and the area weights shows only for asymmetric settings.",
     [("setup", "magpie/densegrid/heal2ring.py:Heal2Ring.setup_polar_cap"),
      ("remap", "magpie/densegrid/heal2ring.py:Heal2Ring.remap"),
      ("rotation", "magpie/coords/usphere.py:usphere_shift")],
     observe=["Heal2Ring.remap return value"])

prop("C10", "Dense-grid sphere-to-box remapping is the area-weighted mean",
     "Each pixel of a longitude-latitude box about any point of the sphere is the mean of the HEALPix map at the centres of its subpixels weighted by their area on the sphere, where the box is centred on the equator, spun by the requested angle and carried rigidly to the requested centre. The vertical length defaults to the horizontal one (capped at pi) and the vertical number of pixels to the horizontal one.",
     ["inputs", "configurations"],
     "all map resolutions, box lengths and divisions, centres, spins, subdivision factors, maps and weights",
     "No test touches the class; rows and columns, rotation and area weights show only for asymmetric settings.",
     [("setup", "magpie/densegrid/heal2polar.py:Heal2Polar.setup_box"),
      ("remap", "magpie/densegrid/heal2polar.py:Heal2Polar.remap")],
     observe=["Heal2Polar.remap return value"])

prop("C11", "Orthographic projection of the sphere, image and coordinates agree",
     "Each pixel of the orthographic image of a HEALPix map is the mean of the map over those of its subpixels which lie on the visible disc (whatever the map holds elsewhere), and NaN if the pixel centre is off the disc; the map is seen with the chosen centre in the middle of the image, north up and phi increasing to the right. The coordinate transform sends any point of the near hemisphere to its place on the same image for any sphere radius, and points of the far hemisphere to NaN.",
     ["inputs", "configurations"],
     "all map resolutions, image sizes and divisions, centres, subdivision factors, radii, maps, weights and points",
     "No test touches the class; partially visible pixels, other radii and agreement between image and coordinates need many settings.",
     [("setup", "magpie/densegrid/heal2ortho.py:Heal2Ortho.setup_box"),
      ("remap", "magpie/densegrid/heal2ortho.py:Heal2Ortho.remap"),
      ("transform", "magpie/densegrid/heal2ortho.py:Heal2Ortho.transform"),
      ("disc depth", "magpie/coords/conversions.py:ortho2cart")],
     observe=["Heal2Ortho.remap and Heal2Ortho.transform return values"])

prop("C12", "Monte Carlo sphere remapping samples the right map pixels",
     "Each pixel of a Monte Carlo remapped polar-cap grid or longitude-latitude box is an average of the HEALPix pixels which that grid pixel overlaps once the grid is spun and carried to its centre, with weights that converge to the overlap areas and an optional weight map multiplying them. A constant map is returned unchanged, the result is linear in the map and never leaves the range of the overlapped values.",
     ["inputs", "configurations"],
     "all map resolutions, grid ranges and divisions, centres, spins, sample sizes, maps and weights",
     "No test touches the classes; the geometry only shows for asymmetric settings and the result is random.",
     [("ring weights", "magpie/montecarlo/heal2ring.py:Heal2Ring.get_weights"),
      ("ring remap", "magpie/montecarlo/heal2ring.py:Heal2Ring.remap"),
      ("box weights", "magpie/montecarlo/heal2polar.py:Heal2Polar.get_weights"),
      ("box remap", "magpie/montecarlo/heal2polar.py:Heal2Polar.remap")],
     observe=["remap return values"])

prop("C13", "Remapping objects can be reused: results depend on the current setup",
     "After any sequence of setups, weight calculations, remappings, profiles and cleanings, a remapping object gives the same results as a fresh object taken straight to the current setup. Nothing computed for an earlier grid, map or mask leaks into later results, two objects never influence each other, and cleaning returns the object to its initial state.",
     ["histories"],
     "all sequences of public operations on one or more objects of every remapping class",
     "It quantifies over call histories; no test creates a remapping object, let alone reuses one.",
     [("Monte Carlo rings", "magpie/montecarlo/box2ring.py:Box2Ring"),
      ("dense rings", "magpie/densegrid/box2ring.py:Box2Ring"),
      ("sphere rings", "magpie/densegrid/heal2ring.py:Heal2Ring"),
      ("sphere rings, Monte Carlo", "magpie/montecarlo/heal2ring.py:Heal2Ring"),
      ("shells", "magpie/densegrid/cube2shell.py:Cube2Shell"),
      ("shells, Monte Carlo", "magpie/montecarlo/cube2shell.py:Cube2Shell"),
      ("boxes", "magpie/densegrid/heal2polar.py:Heal2Polar"),
      ("boxes, Monte Carlo", "magpie/montecarlo/heal2polar.py:Heal2Polar"),
      ("orthographic", "magpie/densegrid/heal2ortho.py:Heal2Ortho"),
      ("perspective", "magpie/densegrid/pointofview.py:PointOfView")],
     state=[("area2d / pixarea / mask_in_bound", "cached areas and in-bounds mask, stale after a new setup", "magpie/montecarlo/box2ring.py:Box2Ring"),
            ("weights", "pixel indices and weights of the last weight calculation", "magpie/montecarlo/box2ring.py:Box2Ring")],
     observe=["results of remap and polar2radial after a history"])

prop("C14", "Coordinate conversions are exact, ranged and mutually inverse",
     "Cartesian to polar and spherical conversions about any centre give the radius, an azimuth in [0, 2pi) up to rounding and a colatitude in [0, pi], and converting back returns the original point (and vice versa for points with positive radius). The origin has a well defined result, latitude and colatitude conversions are mutual inverses, the orthographic depth is the positive root on the sphere and the fill value outside, and the area of a longitude-colatitude rectangle is its exact solid angle, additive over subdivisions. Scalars and arrays of any shape give the same values.",
     ["inputs"],
     "all finite points (axes, quadrants, origin, negative zero), centres, radii, scalars and arrays of any shape",
     "The tests check a handful of points; quadrants, axes, centres and n-dimensional arrays are quantified over.",
     [("polar", "magpie/coords/conversions.py:cart2polar"),
      ("spherical", "magpie/coords/conversions.py:cart2sphere"),
      ("back", "magpie/coords/conversions.py:sphere2cart"),
      ("orthographic", "magpie/coords/conversions.py:ortho2cart"),
      ("area", "magpie/coords/usphere_util.py:usphere_area"),
      ("latitude", "magpie/coords/usphere_util.py:sphere2lonlat")],
     observe=["return values"])

prop("C15", "Rotations of the sphere are rigid and do what they say",
     "Rotating the sphere from one point to another is the rotation along the great circle joining them: it takes the start to the end, preserves all angular distances and orientation and leaves the axis fixed. Shifting is a longitude shift followed by a rotation along the meridian, spinning about a point is a rotation by the given angle about that point, and a longitude shift adds the angle modulo 2pi; reversing the arguments (or using the complementary angle) undoes each of them. Results are longitudes in [0, 2pi] and colatitudes in [0, pi].",
     ["inputs"],
     "all start and end points that define a rotation, spin centres and angles, and sets of points including poles and the meridian",
     "The tests check a few rotations to poles and equators; rigidity quantifies over all pairs of points and rotations.",
     [("rotate", "magpie/coords/usphere.py:usphere_rotate"),
      ("shift", "magpie/coords/usphere.py:usphere_shift"),
      ("spin", "magpie/coords/usphere.py:usphere_spin"),
      ("phi shift", "magpie/coords/usphere.py:usphere_phi_shift"),
      ("polar rotation", "magpie/coords/polar.py:rotate_polar")],
     observe=["return values"])

prop("C16", "The HEALPix plane projection and its inverse agree everywhere",
     "Projecting a direction on the sphere onto the HEALPix plane and back returns the same direction, and projecting a point of the plane to the sphere and back returns the same point, in the equatorial zone, in all four facets of both polar caps, on the boundaries between them and at the poles. The projection preserves area, keeps the quadrant of the longitude in the caps, is symmetric about the equator and repeats every quarter turn. Scalars and arrays agree.",
     ["inputs"],
     "all directions and all points of the plane's domain, including zone boundaries, facet boundaries and poles",
     "The tests check one round trip on fixed points; the piecewise definition has boundaries in both coordinates.",
     [("plane to sphere", "magpie/coords/healpix.py:healpix_xy2ang"),
      ("sphere to plane", "magpie/coords/healpix.py:healpix_ang2xy")],
     observe=["return values"])

prop("C17", "HEALPix pixel indexing agrees with the standard ring scheme",
     "For every resolution and every pixel, ring and in-ring indices are those of the standard HEALPix ring scheme and convert back to the pixel, and the plane position of a pixel projects to the standard centre of that pixel on the sphere. The conversions to the rotated index pairs used for neighbour finding are unique for every pixel and invert exactly. Scalars and arrays agree.",
     ["inputs"],
     "all resolutions (powers of two and others) and all pixels, including ring and face boundaries of the caps and the equatorial zone and high resolutions",
     "The tests check one small resolution; region formulas differ by parity and resolution and floating-point square roots matter at high resolution.",
     [("pixel to ring", "magpie/pixel/healpix_index.py:healpix_pix2ij"),
      ("ring to pixel", "magpie/pixel/healpix_index.py:healpix_ij2pix"),
      ("ring to plane", "magpie/pixel/healpix_index.py:healpix_ij2xy"),
      ("rotated indices", "magpie/pixel/healpix_index.py:healpix_ijd2ijs"),
      ("rotated indices back", "magpie/pixel/healpix_index.py:healpix_ijs2ijd")],
     observe=["return values, compared with healpy"])

prop("C18", "HEALPix neighbours are exactly the touching pixels",
     "The neighbours reported for a pixel are exactly the pixels which share an edge or a corner with it on the sphere, each of them once, never the pixel itself, and always valid pixels of the same map. The relation is symmetric, and each pixel has eight neighbours except those at the corners where only three faces meet, which have seven (six in the coarsest map).",
     ["inputs"],
     "all resolutions and all pixels",
     "The tests check a few pixels at one resolution; the special cases lie at the boundaries between the twelve faces.",
     [("neighbours", "magpie/pixel/healpix_index.py:healpix_ijs_neighbours")],
     observe=["return values, mapped back to pixels"])

prop("C19", "HEALPix pixel boundaries are the true pixel outlines",
     "The boundary curves of a pixel run along the four sides of its diamond in the HEALPix plane, start and end at its corners, meet without gaps, have the requested number of points and reverse exactly on request; projected to the sphere they are the standard boundary of that pixel. Points strictly inside the curve belong to the pixel, and points strictly outside do not.",
     ["inputs"],
     "all resolutions, pixels and numbers of steps (even and odd), in both orders",
     "The tests check fixed pixels at one resolution.",
     [("top and bottom", "magpie/pixel/healpix_boundary.py:healpix_boundary_top"),
      ("outline", "magpie/pixel/healpix_boundary.py:healpix_boundary")],
     observe=["return values, compared with healpy"])

prop("C20", "Grids have the documented edges, centres, order and areas",
     "Uniform grids have equally spaced edges from the minimum to minimum plus length, centres half way between the edges, and 2D and 3D coordinates indexed in the order x, y, z; converting centres to edges and back returns the same centres. The polar grid does the same in radius and angle, and every pixel of the equal-area polar grid has the stated area, with the stated number of pixels covering the disc once.",
     ["inputs"],
     "all lengths, minima, numbers of divisions per axis, and base numbers of angular pixels",
     "The tests check single small grids.",
     [("cartesian", "magpie/grids/cartesian.py:grid3d"),
      ("centres to edges", "magpie/grids/cartesian.py:xmid2edges"),
      ("polar", "magpie/grids/polar.py:polargrid"),
      ("equal area", "magpie/grids/polar.py:polarEA_grid")],
     observe=["return values"])

prop("C21", "Shape outlines lie on the shape and cover it completely",
     "Outlines of rectangles, arcs, disc segments and boxes consist of points on the shape's boundary, in order, joined end to end, with the requested number of points and containing every corner. The box outline consists of the twelve edges, or with hidden lines removed exactly of those edges which are visible from the viewpoint.",
     ["inputs"],
     "all extents, angles, centres, numbers of steps and viewpoints outside the box",
     "The tests check one of each; visibility depends on the position of the viewpoint relative to six faces.",
     [("rectangle", "magpie/pixel/basic_shapes.py:get_square"),
      ("arc", "magpie/pixel/basic_shapes.py:get_arc"),
      ("disc", "magpie/pixel/basic_shapes.py:get_disc"),
      ("box", "magpie/pixel/basic_shapes.py:get_box")],
     observe=["return values"])

prop("C22", "Random points fill exactly the requested region, uniformly",
     "Random points in an interval, rectangle, cuboid, ring segment, spherical shell segment, patch of the sphere or HEALPix pixel all lie inside the requested region, come in the requested number, and are uniformly distributed over its length, area or volume with independent coordinates. This holds for every region, including degenerate, offset and partial ones.",
     ["inputs", "configurations"],
     "all regions, sizes and random states; uniformity is decided statistically with a stated false alarm probability",
     "No test covers randoms; uniformity is a statement about a distribution for every region.",
     [("cartesian", "magpie/randoms/cart.py:randoms_3d"),
      ("polar", "magpie/randoms/polar.py:randoms_polar"),
      ("sphere", "magpie/randoms/sphere.py:randoms_sphere"),
      ("unit sphere", "magpie/randoms/usphere.py:randoms_usphere"),
      ("HEALPix pixel", "magpie/randoms/usphere.py:randoms_healpix_pixel")],
     observe=["return values"])

prop("C23", "Randoms from a distribution follow that distribution",
     "The cumulative distribution built from a binned density starts at 0, ends at 1, never decreases, is piecewise proportional to the cumulated density at the bin edges, and the normalised density integrates to one. Randoms drawn from a cumulative distribution or a density stay inside its support and follow it: exactly the piecewise linear distribution with linear interpolation, and closely the tabulated one when it is smooth and interpolated with a smoother kind.",
     ["inputs", "configurations"],
     "all positive binned densities on uniform bins, sizes and random states; the distribution is decided statistically with a stated false alarm probability",
     "No test covers randoms; the statement is about every density.",
     [("density to distribution", "magpie/randoms/pdf.py:pdf2cdf"),
      ("draw", "magpie/randoms/pdf.py:randoms_cdf"),
      ("draw from density", "magpie/randoms/pdf.py:randoms_pdf")],
     observe=["return values"])

prop("C24", "Subsamples draw from the sample, and stochastic weights are unbiased",
     "A shuffle is a permutation, a random draw is a subset without repeats of the requested size in which every element is equally likely, and a probabilistic draw keeps elements with the given probabilities, or, for a requested size, keeps that many, preferring elements in proportion to their probabilities while few are drawn. Stochastic integer weights are the floor or the ceiling of the weight with the right mean (binary ones are 0 or 1), for scalars and arrays of any shape.",
     ["inputs", "configurations"],
     "all samples, sizes, probabilities, weights and random states; probabilities are decided statistically with a stated false alarm probability",
     "No test covers subsampling; it quantifies over samples and random states.",
     [("subsampling", "magpie/randoms/subsample.py:random_draw"),
      ("probabilistic", "magpie/randoms/subsample.py:random_prob_draw"),
      ("weights", "magpie/randoms/subsample.py:stochastic_integer_weights")],
     observe=["return values"])

prop("C25", "The perspective view is a central projection and can be reversed",
     "The perspective transform projects points through the camera onto the display plane: the target appears at the origin, points on one line of sight appear at one place, screen coordinates scale with the display distance, and the reported distance is the distance to the camera. Rotating the view spins the image about its centre, and the reverse transform returns the original points in front of the camera.",
     ["inputs", "configurations"],
     "all cameras, targets, display distances, spins and points in front of the camera, scalars and arrays",
     "No test touches the class.",
     [("transform", "magpie/densegrid/pointofview.py:PointOfView.transform"),
      ("reverse", "magpie/densegrid/pointofview.py:PointOfView.reverse")],
     observe=["return values"])

prop("C26", "Calculations never modify their inputs",
     "No function or method changes the arrays, lists or default arguments it is given, whatever their memory layout, and apart from those which draw random numbers, repeating a call with the same arguments gives the same result. Results never share memory with each other across calls in a way that a later call would change an earlier result.",
     ["inputs", "histories"],
     "all public functions and methods with generated arguments, repeated and interleaved",
     "Tests do not compare arguments before and after, and do not repeat calls.",
     [("phi shift", "magpie/coords/usphere.py:usphere_phi_shift"),
      ("profiles", "magpie/densegrid/box2ring.py:Box2Ring.polar2radial"),
      ("rebinning", "magpie/one_d/one_d.py:rebin_1d"),
      ("remap", "magpie/remap/grid2grid.py:grid2grid1D"),
      ("conversions", "magpie/coords/conversions.py:cart2polar")],
     observe=["arguments after the call; results of repeated calls"])

prop("C27", "Rotating polar data rotates the data",
     "Rotating data on a polar grid by an angle shifts it by that angle with linear interpolation between neighbouring angular pixels, wrapping around when the grid covers the full circle and bringing in zeros when it does not (for finite data). A rotation by a whole number of pixels is an exact shift, rotations by complementary angles of whole pixels undo each other, and on a full circle the sum over angle is unchanged for every radius.",
     ["inputs"],
     "all angular grids (full and partial), angles strictly between 0 and 2pi, and data",
     "No test covers grid rotation; fractional shifts, large shifts and partial grids are separate cases.",
     [("grid rotation", "magpie/coords/polar.py:rotate_polar_grid"),
      ("Monte Carlo rings", "magpie/montecarlo/box2ring.py:Box2Ring.rotate_polar"),
      ("dense rings", "magpie/densegrid/box2ring.py:Box2Ring.rotate_polar"),
      ("sphere rings", "magpie/densegrid/heal2ring.py:Heal2Ring.rotate_polar")],
     observe=["return values"])

prop("C28", "Invalid setups and arguments are rejected, valid ones are accepted",
     "In the setups and remappings of the remapping objects, rotations, areas, rebinning, outlines and draws, every argument outside the documented range (reversed or negative radii, angles beyond their range, non-positive numbers of divisions, centres of the wrong length, arrays which do not match the grid, unsorted bins, cumulative distributions not spanning 0 to 1, too large draws, numbers of steps that do not divide) is rejected with an error by the call that receives it (the centre and spin of a Monte Carlo sphere grid at the latest when its weights are calculated), and every argument inside the range, including its end points, is accepted.",
     ["inputs", "configurations"],
     "all setups with one argument at or beyond its limit and the rest valid",
     "Tests only use valid arguments.",
     [("rings", "magpie/montecarlo/box2ring.py:Box2Ring.setup_polar_lin"),
      ("dense rings", "magpie/densegrid/box2ring.py:Box2Ring.setup_polar"),
      ("shells", "magpie/densegrid/cube2shell.py:Cube2Shell.setup_polar"),
      ("caps", "magpie/densegrid/heal2ring.py:Heal2Ring.setup_polar_cap"),
      ("boxes", "magpie/densegrid/heal2polar.py:Heal2Polar.setup_box"),
      ("rotations", "magpie/coords/usphere.py:usphere_rotate"),
      ("areas", "magpie/coords/usphere_util.py:usphere_area"),
      ("rebinning", "magpie/one_d/one_d.py:rebin_1d"),
      ("shapes", "magpie/pixel/basic_shapes.py:get_square"),
      ("draws", "magpie/randoms/subsample.py:random_draw")],
     observe=["exceptions raised"])

prop("C29", "Progress reports are complete and monotone",
     "Over a loop of any length the progress bar is refreshed with a bar of the requested length, whose filled part and percentage never decrease and agree with the fraction done, and it ends exactly once, at 100% with a completely filled bar and a newline. Calculations asked to be verbose report in this way until they end; the others print nothing, and the results are the same. The monotonicity test accepts exactly the non-decreasing sequences.",
     ["inputs", "histories"],
     "all loop lengths, bar lengths, markers, refresh rates and sequences",
     "No test covers the utilities.",
     [("progress", "magpie/utils/progress.py:progress_bar"),
      ("monotone", "magpie/utils/check.py:is_pos_monotonic")],
     observe=["text written to standard output", "return value"])

prop("C30", "Plot helpers draw the geometry they are given",
     "Plotted boxes, circles, polar boxes and coordinate grids pass through exactly the points of the shape (through the orthographic transform where applicable), closed and with the requested density, on the given axis or the current one. Images are placed with the first row at the bottom and the extent of the projected box, the view limits are the box (mirrored when seen from inside), and labels drawn on the sphere stand at their coordinate and name it, while labels on the edges stand where the edge meets the grid line they name.",
     ["inputs", "configurations"],
     "all shapes, projections, axis arguments and label settings",
     "No test covers plotting.",
     [("shapes", "magpie/plots/shapes.py:plot_box"),
      ("orthographic plots", "magpie/plots/ortho.py:PlotOrtho")],
     observe=["line, image and text artists created"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
