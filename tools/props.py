REAL = ('Holds for every value of the symbolic inputs within the ranges stated in the harness, on every path within the '
        'loop and depth bounds. Floats are exact reals with NaN/Inf tracked (rounding, overflow and underflow are outside the claim). '
        'Trusted: go/ssa, the interpreter, the solvers. Path witnesses are replayed natively on every run. ')
PROPS = [
 dict(id='C01', title='Affine transforms obey their documented algebra',
  statement='For every affine transform and vector: applying a transform to a point gives A p + b and to a direction A d, the inverse of a non-singular transform undoes it from both sides, Before/After/left-to-right composition apply their operands in the documented order, and translation, scaling, base mapping and re-centring on an origin are the maps they document. '
            'Composing or re-centring never modifies the operands. The underlying vector and matrix operations (sum, product, cross, length, normalisation, triangle normal) are the standard ones.',
  quant='every 3x3 matrix, offset, point and direction (entries bounded as stated), every non-singular matrix for inversion',
  why='tests evaluate a handful of fixed matrices; the algebra must hold for every matrix and vector',
  files=['geom/affinetransform.go', 'geom/matrix.go', 'geom/vec.go', 'geom/util.go'],
  mech=[('AffineTransform methods', 'geom/affinetransform.go'), ('Matrix.Inverse, Mul, MulVec', 'geom/matrix.go')],
  note=REAL + 'Matrix entries in [-10,10], vectors in [-100,100].'),
 dict(id='C02', title='Rotations are proper, right-handed and fix their axis',
  statement='For every axis, origin and angle, a rotation preserves lengths, fixes every point of the axis through its origin and turns every vector counterclockwise (right-handed) by exactly the angle; the axis need not be normalised. '
            'Yaw, pitch and roll are the rotations about the y, x and z axes, and the combined orientation applies roll, then pitch, then yaw.',
  quant='every non-zero axis, every angle (through its sine and cosine), every origin and vector',
  why='tests rotate a few vectors by a few angles; handedness and orthogonality must hold for all axes and angles',
  files=['geom/affinetransform.go', 'util/util.go'],
  mech=[('Rotate, rotationMatrix', 'geom/affinetransform.go'), ('Sin, Cos', 'util/util.go')],
  note=REAL + 'sin and cos enter as a point on the unit circle with exact values at multiples of 90 degrees.'),
 dict(id='C03', title='Spheres and cylinders are hit exactly at their first crossing',
  statement='Intersecting a ray with a sphere or an (arbitrarily oriented, open) cylinder reports exactly the first crossing of the surface strictly in front of the ray start: the hit parameter, the unit normal perpendicular to the surface there, the local coordinates and the material. '
            'A ray starting inside hits the exit point, a cylinder crossing counts only within its height, and a ray whose line misses or that has the object behind it reports no hit (T=0). A point is inside exactly when it is within the radius (and height).',
  quant='every position, diameter and height, every ray meeting the surface at any point from any side, every ray missing it',
  why='tests sample a few rays; grazing, inside and behind cases must be right for every ray',
  files=['tracer/objects/quadric.go'],
  mech=[('quadric.Intersect, Inside', 'tracer/objects/quadric.go')],
  note=REAL + 'Tangent rays and starts exactly on the surface are excluded.'),
 dict(id='C04', title='Boxes, triangles and flat shapes are hit exactly at their first crossing',
  statement='Intersecting a ray with a box, triangle, quadrilateral, rectangle or disk reports a hit exactly when the ray crosses the shape strictly in front of its start, at the first crossing, with the normal of the surface there and the documented local coordinates; otherwise it reports no hit (T=0). '
            'A ray starting inside a box hits the exit face. The backdrop is hit by every ray, behind everything else, with the ray direction as its local coordinate.',
  quant='every box, rectangle, disk and triangle, every ray through an interior point from either side, every ray passing outside or behind, every axis-parallel ray; box and triangle: the octants and axis orders stated in the harness',
  why='tests shoot a few rays from outside; zero direction components, rays from inside and starts on bounding planes must work for every ray',
  files=['tracer/objects/box.go', 'tracer/objects/mesh.go', 'tracer/objects/tree.go', 'tracer/objects/backdrop.go', 'tracer/objects/boundingbox.go'],
  mech=[('box.Intersect', 'tracer/objects/box.go'), ('face.Intersect', 'tracer/objects/mesh.go'), ('intersectAABB', 'tracer/objects/tree.go')],
  note=REAL + 'Edges and grazing rays are excluded. The quick tier takes some of the direction octants, the thorough tier all.'),
 dict(id='C05', title='Intersecting is a pure query that goroutines can share',
  statement='Intersect, Inside and Bounds leave the ray and the object unchanged: the same ray gives the same hit whatever was intersected before, and any number of goroutines may intersect the same object concurrently without data races and with the answers they would get alone.',
  over=['inputs', 'schedules'],
  quant='every kind of object, every ray from two families of viewpoints before and after other queries; two goroutines on every kind of object under every schedule up to the preemption bound, races decided by happens-before',
  why='no test intersects concurrently under all schedules or compares answers across histories',
  files=['tracer/objects/interface.go', 'tracer/objects/csg.go', 'tracer/objects/transformed.go', 'tracer/ray.go'],
  mech=[('Intersect of every object', 'tracer/objects')],
  note=REAL + 'Two goroutines, bounded preemptions; happens-before race detection covers schedules that are not enumerated.'),
 dict(id='C06', title='Bounding boxes enclose their object',
  statement='For every object, each point of its surface that can be hit and each point inside lies within its Bounds; wrappers keep the bounds, unions and trees enclose all parts, intersections the common part, and the single-precision boxes used inside trees are rounded outward. '
            'Bounding an object (Bounded) does not change what is hit. The anchor points of a box of bounds (centers of its sides, corners) are those of the box.',
  quant='every size and position of every shape, every surface point, every inside point; the single-precision rounding for every float64 bit pattern in range (bit-exact floating point)',
  why='a bounding box that is too small drops hits only for particular positions and rays',
  files=['tracer/objects/boundingbox.go', 'tracer/objects/bounded.go', 'tracer/objects/tree.go', 'tracer/objects/quadric.go', 'tracer/objects/mesh.go', 'tracer/objects/csg.go'],
  mech=[('Bounds of every object', 'tracer/objects'), ('boundingBoxToF', 'tracer/objects/tree.go')],
  note=REAL + 'H_TreeRounding is decided in exact IEEE arithmetic.'),
 dict(id='C07', title='A transformed object is the original object moved',
  statement='Intersecting a transformed object is intersecting the original with the ray carried back: same ray parameter, material and local coordinates, normal carried forward; the caller\'s ray is left unchanged. Transforms nest in order, Inside asks the original about the carried-back point, the bounds enclose the image of the original\'s bounds and never cull a hit, and unbounded objects can be transformed too.',
  quant='every similarity about an axis (any angle, scale, offset) and any nested pair; for culling, exact rational rotations and every ray meeting the object within its bounds',
  why='tests transform one object by a few matrices',
  files=['tracer/objects/transformed.go', 'tracer/objects/boundingbox.go', 'geom/affinetransform.go'],
  mech=[('transformed.Intersect, Inside', 'tracer/objects/transformed.go'), ('transformBounds', 'tracer/objects/transformed.go')],
  note=REAL + 'The original is an arbitrary stub object that records the ray it is asked about.'),
 dict(id='C08', title='CSG composites are hit at the first point of their own surface',
  statement='For solids a and b with arbitrary entry and exit positions along a ray: And, Or, Difference, Restrict, Not and Hollow report the first point in front of the ray that lies on the surface of the composite as a point set, with that operand\'s material (and flipped normal on a cut), no hit when there is none, and Inside is the Boolean combination. This carries over to nested composites.',
  quant='every arrangement of up to two surface intervals per operand (all orders of entry and exit positions, ray starting inside or outside of either), nested expressions of three operands',
  why='tests render a few CSG scenes; the case analysis over interval orders is exhaustive only symbolically',
  files=['tracer/objects/csg.go'],
  mech=[('and.Intersect, or.Intersect', 'tracer/objects/csg.go'), ('restrict, not, hollow', 'tracer/objects/csg.go')],
  note=REAL + 'Surfaces of different operands are at least a small distance apart (coincident surfaces excluded).'),
 dict(id='C09', title='A tree is hit exactly like the list of its objects',
  statement='Intersecting a Tree returns the nearest of the hits of all its objects, whatever their number, arrangement and overlap, and no hit when none of them is hit; a point is inside the tree exactly when it is inside one of the objects.',
  quant='trees of 5, 9 and 17 leaves (one to three levels), any of the objects hit at any position within its box, any hit order; directions as stated, including axis-parallel rays',
  why='a pruning mistake shows only for particular arrangements and rays',
  files=['tracer/objects/tree.go', 'tracer/objects/boundingbox.go'],
  mech=[('tree.Intersect, node.intersect', 'tracer/objects/tree.go'), ('intersectAABBf', 'tracer/objects/tree.go')],
  note=REAL + 'Single-precision rounding is covered by C06; here float32 is exact.'),
 dict(id='C10', title='The frontmost object is shaded, once, within the recursion limit',
  statement='The light field of a scene along a ray is the color of exactly one material: that of the object (or light) with the smallest positive hit, shaded with that hit, a unit normal, the ray and the scene; black when nothing is hit. Misses, hits behind the start and NaN are ignored. In the indirect light field lights still block but are black. '
            'Recursion stops exactly at the scene\'s recursion depth, where the light is black, and the context\'s depth is restored afterwards. Media filter the result in their order up to the hit. The image function is the light field of the camera\'s ray. Building a scene leaves the caller\'s slices alone.',
  quant='one to four objects and lights with any hit parameter including NaN and negative values, any colors; recursion depths 0..4 with 0..3 branches; two media',
  why='tests render a few scenes; order, ties, NaN and recursion bookkeeping must hold for all',
  files=['tracer/scene.go', 'tracer/ctx.go'],
  mech=[('Scene.lightField, intersectFrontmost', 'tracer/scene.go'), ('Ctx.CurrentRecursionDepth', 'tracer/ctx.go')],
  note=REAL),
 dict(id='C11', title='A shadow ray is blocked exactly by what lies between it and the light',
  statement='Occlude returns black exactly when an opaque surface of an object is hit strictly between the start and the given distance; transparent surfaces in between filter the light, once each, with their own hit, also several of one object, and what is opaque behind them blocks, also in the same object (a tree or union); '
            'objects behind, beyond, missed (T=0) or NaN, and light sources themselves, have no effect. The ray is left unchanged.',
  quant='up to three objects with any hit parameter (NaN and infinities included), opaque or transparent, any distance and brightness; objects of up to three surfaces; real trees and unions with panes of glass',
  why='tests render a few shadows',
  files=['tracer/scene.go'], mech=[('Scene.Occlude', 'tracer/scene.go')], note=REAL),
 dict(id='C12', title='Every pixel is sampled exactly as often as asked and is the mean of its samples',
  statement='For every image size, number of passes and goroutine schedule, sampling calls the image function exactly once per pixel and pass, at the center of that pixel, without data races, and the image is the per-pixel mean over all samples of all calls (StdDev their standard deviation). '
            'A NaN sample does not make its pixel or any other pixel NaN. Each pixel continues its own random sequence over passes and calls, whichever goroutine samples it.',
  over=['inputs', 'schedules'],
  quant='image sizes around and across tile borders, up to two goroutines under every schedule within the preemption bound, arbitrary sample values including NaN',
  why='tests cannot control the schedule or cover every size',
  files=['tracer/sampler.go', 'tracer/ctx.go'],
  mech=[('Sampler.SampleWithCancel, samplePixel, tessellate', 'tracer/sampler.go'), ('Ctx.Init', 'tracer/ctx.go')],
  note=REAL + 'Sizes from a list up to 2x33 (thorough 33x17), up to 3 passes, 1 or 2 CPUs, preemption bound 1 (thorough 2); two sampled channels of the deviation.'),
 dict(id='C13', title='Pixels are square, lie in the unit square, and antialiasing stays in the pixel',
  statement='Pixel positions map to the unit square centrally, u to the right and v upwards, with square pixels of size 1/max(width,height) (both copies of the mapping); positions outside of the image are refused; PixelSize is the distance of neighbouring pixels. '
            'With antialiasing every sample stays within its own pixel, the samples of a pixel differ from each other and spread over the pixel.',
  quant='every image size up to 100000 and every position within or outside it; antialiasing: sizes up to 4 pixels, 16 to 32 passes',
  why='tests check six positions of two landscape sizes',
  files=['tracer/sampler.go', 'sampler/util.go', 'tracer/ctx.go'],
  mech=[('IndexToCam, PixelSize', 'tracer/sampler.go'), ('IndexToCam', 'sampler/util.go'), ('Ctx.AA', 'tracer/ctx.go')],
  note=REAL + 'The shifts of the pixels are those of Go\'s seeded generator.'),
 dict(id='C14', title='Quasi-random sequences are the Halton sequence with a shift per pixel',
  statement='Element i in base b is the digits of i+1 mirrored at the point, strictly between 0 and 1; consecutive passes are stratified. A sequence yields for pass k of a pixel element k in its two bases, shifted modulo 1 by the pixel\'s shift, in [0,1), whatever was drawn before; the numbers of a context depend only on pixel, pass and recursion depth, so that any goroutine can sample any pixel.',
  quant='bases 2,3,4,5,7,10,11,13 and every index of 3 to 8 digits (thorough 5 to 16), every shift, every pixel and pass within bounds, every history of one earlier draw',
  why='tests print ten elements of two bases',
  files=['tracer/sequence/halton.go', 'tracer/sequence/sequence.go', 'tracer/ctx.go', 'util/util.go'],
  mech=[('Halton', 'tracer/sequence/halton.go'), ('halton.Init, Generate2', 'tracer/sequence/sequence.go'), ('Ctx.Init, Generate2', 'tracer/ctx.go')],
  note=REAL),
 dict(id='C15', title='Uniform numbers map uniformly to the disk, cosine-weighted to the hemisphere',
  statement='UniformDisk maps (u,v) to squared radius v at angle 2 pi u, so equal areas go to equal areas. CosineSphere maps (u,v) to a unit vector on the side of the normal with squared cosine 1-v and azimuth 2 pi u around the normal, for every unit normal.',
  quant='every (u,v) in the unit square, every unit normal',
  why='no test measures the distribution; a degenerate normal breaks single directions only',
  files=['tracer/sequence/mappings.go'],
  mech=[('UniformDisk, CosineSphere', 'tracer/sequence/mappings.go')],
  note=REAL + 'sin and cos of 2 pi u enter as a point on the unit circle.'),
 dict(id='C16', title='Cameras map the image plane to rays as documented',
  statement='The ray of a camera is the one its documentation promises for every point of the image: the projective camera looks through the point of the image plane at its focal length (or field of view), square pixels and v upwards; with an aperture all rays of a pixel meet at the focus distance and start on the aperture; '
            'the isometric and environment maps cover the directions they document; translation, yaw, pitch and roll of a camera move and turn its rays like the corresponding rigid transform. Directions are unit vectors.',
  quant='every point of the unit square, every focal length, field of view, focus distance and aperture within bounds, arbitrary position and angles',
  why='tests render one image per camera',
  files=['tracer/cameras/projective.go', 'tracer/cameras/isometric.go', 'tracer/cameras/environmentmap.go', 'tracer/cameras/withtransform.go'],
  mech=[('projective.RayFrom', 'tracer/cameras/projective.go')],
  note=REAL + 'Angles enter as points of the unit circle; tangents of half the field of view via its sine and cosine.'),
 dict(id='C17', title='Mirrors and glass obey the laws of reflection, Snell and Fresnel',
  statement='A reflective surface shows its color times the light seen from the mirrored direction. A refractive surface, from either side, sends a refracted unit ray by Snell\'s law from the far side and a mirrored ray from the near side, weighted by the Fresnel equations with shares adding up to one, and reflects everything beyond the critical angle and only there. '
            'A varnish reflects by Fresnel over the material below. Rays start at the hit on their side and one level deeper.',
  quant='every angle of incidence and azimuth, every hit point, indices 0.5 to 3 on either side, any colors; shares for index pairs (1.5,1), from either side, and varnish of index 1, 2, 16',
  why='tests compare two images; sign and side mistakes show only for some angles',
  files=['tracer/materials/reflective.go', 'tracer/materials/refractive.go'],
  mech=[('reflective.Shade, reflectFresnel.Shade', 'tracer/materials/reflective.go'), ('refractive.Shade', 'tracer/materials/refractive.go')],
  note=REAL + 'Horizontal surface in the quick tier, tilted in the thorough one (thorough also the pair (1,2)).'),
 dict(id='C18', title='Materials gather light as documented and never amplify it',
  statement='A matte surface adds, for each light, its intensity times the cosine of incidence on the viewer\'s side unless shadowed, and one indirect ray in that hemisphere, times its texture at the local coordinates. Flat, Blend, BlendMap, TwoSided, Transparent (also for shadows) and Shiny combine their parts as documented, each part shaded once with the unchanged hit. '
            'In a uniform environment matte and shiny surfaces are never brighter than it.',
  quant='any colors, weights, local coordinates, light positions and shadowing object; up to two lights; either side of the surface',
  why='tests compare images of a few materials',
  files=['tracer/materials/matte.go', 'tracer/materials/blend.go', 'tracer/materials/flat.go', 'tracer/materials/transparent.go', 'tracer/materials/twosided.go'],
  mech=[('matte.Shade', 'tracer/materials/matte.go'), ('blend, blendMap, transparent, twoSided', 'tracer/materials/blend.go')],
  note=REAL + 'Fixed ray and surface; lights at least 0.1 from the shaded point.'),
 dict(id='C19', title='Lights are sampled where their objects are, with the intensity they show',
  statement='A sample of a light lies on the light (point, rectangle, disk, sun), uniformly over its area for uniform numbers, and brings the intensity of a Lambert emitter of that brightness: brightness times area times cosine at the light over squared distance, nothing behind; a point light its power over the sphere. '
            'The object a light puts in the scene is visible exactly there with exactly that brightness, or invisible. A light of any kind, also a point light, can be moved, turned and scaled (evenly), also twice; it then shines as the original seen from the correspondingly moved target, from where it is seen.',
  quant='every size, brightness and target point (away from the plane of the light), every random number, every yaw and pitch of the sun',
  why='tests compare images of one light each; four of them are not reliable',
  files=['tracer/lights/planar.go', 'tracer/lights/pointlight.go', 'tracer/lights/transformed.go'],
  mech=[('rectangleLight, diskLight Sample and Object', 'tracer/lights/planar.go'), ('pointLight.Sample', 'tracer/lights/pointlight.go'), ('transformed.Sample, SunLight', 'tracer/lights/transformed.go')],
  note=REAL + 'Fixed place of planar lights in the quick tier, arbitrary in the thorough one; the combination of yaw and pitch of the sun in the thorough tier only.'),
 dict(id='C20', title='Fog attenuates exactly the part of the view that lies in it',
  statement='Light reaching the camera is attenuated by exp(-density x length), for the length of the way below the surface of the fog, between the camera and what is seen, whatever the direction, above, below, level or outside; the exponential fog adds its own color for the share taken away. '
            'Scattering fog adds unshadowed light of the given number of lights at a point within that part. Rays not coming from the camera are unaffected.',
  quant='every ray, distance (infinite included), height (infinite included), density; up to two lights, any random number',
  why='tests print one random number and render two images',
  files=['tracer/media/expfog.go', 'tracer/media/fog.go'],
  mech=[('expFog.Filter, intersectHalfSpace', 'tracer/media/expfog.go'), ('fog.Filter, randExpInterval', 'tracer/media/fog.go')],
  note=REAL + 'exp and log enter by monotony, inverse and sum laws.'),
 dict(id='C21', title='Colors are stored with the sRGB curve, clipped, monotone, channel by channel',
  statement='Linear light maps to the sRGB curve, 0 at and below black, 1 at and above white, brighter light never darker, in its own channel, opaque; reading an image applies the inverse curve. Adding, scaling, multiplying, averaging and exposing act on each channel alone.',
  quant='every value, channel and pair of values',
  why='tests compare images with a tolerance of their own',
  files=['imagef/colorf/color.go'],
  mech=[('LinearToSRGB, SRGBToLinear, RGBA', 'imagef/colorf/color.go')],
  note=REAL + 'Powers enter as a monotone function with exact values at a grid. The curve used is allowed to be half a percent above the standard\'s, see known findings.'),
 dict(id='C22', title='Portable pixmaps hold every pixel, and writing errors are reported',
  statement='A written image has a header with its size, then every pixel in reading order with three 16 bit values (decimal or big endian) that follow the sRGB curve of that pixel. If the writer fails at any point the encoder returns an error, and only then.',
  over=['inputs', 'fault_sequences'],
  quant='images up to 2x2 (thorough 3x3) with an arbitrary value in any channel of any pixel; a writer failing after any number of bytes',
  why='tests write one image to a writer that never fails',
  files=['imagef/ppm/ppm.go'],
  mech=[('EncodeAscii16, Encode48BE', 'imagef/ppm/ppm.go')],
  note=REAL),
 dict(id='C24', title='Pixels of an image are independent memory addressed by column and row',
  statement='A new image of any width and height is black; writing a pixel changes that pixel only; a copy is equal and shares no memory; the reported size is the one asked for, also of an empty image.',
  quant='sizes up to 4x4, any pixel and color',
  why='tests use square images or compare totals',
  files=['imagef/image.go'],
  mech=[('MakeImage, Copy, Size, At', 'imagef/image.go')],
  note=REAL),
 dict(id='C25', title='Bloom spreads the light above a threshold by its kernel and loses none',
  statement='Each pixel spreads what exceeds the threshold by the kernel centered on it, scaled to add up to the amplitude over all of the kernel, added in place to the destination; pixels add up; source and kernel are unchanged, and what falls outside of the image is lost. '
            'The Gaussian kernel is exp(-r^2/w^2), the diffraction kernel symmetric, 1 at its center and never negative. Post processing leaves the rendered image unchanged, only adds light, and does nothing without a radius.',
  quant='any bright pixels, amplitudes and thresholds; kernels 1x3, 3x1, 3x3, 5x5 on 3x3 images, generated kernels up to 5x5',
  why='tests convolve one image with one kernel',
  files=['imagef/post/convolution.go', 'imagef/post/params.go'],
  mech=[('AddConvolution', 'imagef/post/convolution.go'), ('Params.ApplyTo', 'imagef/post/params.go')],
  note=REAL + 'Quick tier: some channels fixed.'),
 dict(id='C23', title='Textures show their image or pattern at every position',
  statement='A loaded image is the file with its first row at the top, converted to linear colors; missing or broken files are refused. An image texture spans the unit square, interpolates linearly between the four nearest pixels (or takes the nearest one) and repeats in both directions; it shows a mixture of its pixels at every finite position, and no position, infinite or NaN included, makes it panic. '
            'Checkerboards alternate in squares of half a repetition, grids have lines at the repetitions, panning moves and scaling enlarges a texture, and fisheye images show the zenith in their center and the horizon on the circle around it, with a place for every direction.',
  quant='images up to 3x2 of arbitrary values, every position; for panics every pair of float64 bit patterns (bit-exact floating point); every strip, offset, scale and width of patterns',
  why='tests look up a few positions of one image',
  files=['texture/func2d.go', 'texture/interpolation.go', 'texture/texture2d.go', 'texture/uvmapper.go', 'texture/texture.go', 'texture/assets.go', 'imagef/load.go', 'api/texture.go'],
  mech=[('interpolation', 'texture/interpolation.go'), ('LoadTexture', 'api/texture.go'), ('MapFisheye', 'texture/uvmapper.go')],
  note=REAL + 'Files are modelled: image decoding (image/png) is an input of the model, replayed with real files. H_NoCrash is decided in exact IEEE arithmetic. The fisheye at the horizon in exact arithmetic for 64 directions (concrete: square root and division of an arbitrary direction are out of reach of the solvers).'),
 dict(id='C26', title='OBJ files are read completely or refused',
  statement='The vertices of an OBJ file and the faces of each material are in the result in the order of the file, with groups, normals and texture coordinates skipped; faces referring to vertices that do not exist, wrong numbers of fields and lines that are no numbers are refused with an error, never a crash. '
            'The object shows each face in its material after all transforms from left to right; a file that cannot be used ends the program.',
  quant='files of up to a few lines with arbitrary numbers (thorough: longer), every index, in every order of the statements stated in the harness; arbitrary rays at the object',
  why='tests read well-formed files',
  files=['tracer/objects/obj/parser.go', 'tracer/objects/mesh.go'],
  mech=[('Parse', 'tracer/objects/obj/parser.go'), ('ObjFile', 'tracer/objects/mesh.go')],
  note=REAL + 'The text is concrete up to the numbers, which are symbolic tokens that strconv returns as they were written; replays use real files.'),
 dict(id='C27', title='PLY files are read completely or refused',
  statement='The vertices and faces announced in the header of a PLY file are in the result in the order of the file, quadrilaterals as two triangles covering them; fewer lines than announced, faces referring to vertices that do not exist, unsupported polygons, other elements before the vertices or the faces, and lines that are no numbers are refused with an error, never a crash. '
            'The object shows the faces after all transforms from left to right; a file that cannot be used ends the program.',
  quant='files of up to a few lines with arbitrary numbers, every count in the header, every index; arbitrary rays at the object',
  why='tests read well-formed files',
  files=['tracer/objects/ply/parser.go', 'tracer/objects/mesh.go'],
  mech=[('Parse', 'tracer/objects/ply/parser.go'), ('PlyFile', 'tracer/objects/mesh.go')],
  note=REAL + 'The text is concrete up to the numbers, which are symbolic tokens that strconv returns as they were written; replays use real files.'),
 dict(id='C29', title='Specifications fill in only what was left open, and views only change the view',
  statement='Size, recursion, passes, camera, objects and media given in a Spec are used as given; what is left open gets a usable default: one pass, recursion 1, a 90 degree camera at 1 meter looking ahead, and a missing dimension follows from the default aspect ratio. '
            'Showing normals replaces the materials of all objects (the backdrop turns black) and removes media, in a copy of the list of objects. A View determines size, viewpoint, direction and debugging, leaves the rest to the Spec, and leaves the Spec unchanged, so that views do not add up.',
  quant='every size, recursion and number of passes; with and without camera; every viewpoint, yaw and pitch; every normal and direction of view',
  why='tests render a few specifications with default views',
  files=['api/spec.go', 'api/view.go', 'tracer/test/materials.go'],
  mech=[('InitDefaults', 'api/spec.go'), ('ApplyTo', 'api/view.go')],
  note=REAL + 'A width of a single pixel without a height is excluded (the height comes out as zero).'),
 dict(id='C33', title='Placing objects uses the anchors of their bounding boxes',
  statement='The center, top, bottom, front and back of an object are those of its bounding box. Moving an object, to a center or a bottom center moves all of it; scaling, scaling to a width and rotating keep the center or the given fixed point; any transform maps every point of the object. Remapping changes only the local coordinates of a hit and WithMaterial only the material. '
            'Combinations are the Boolean ones, cutting (Restrict, Remove) keeps the surface of the first object only, and the cylinders along x, y and z lie along these axes.',
  quant='every bounding box, offset, scale, fixed point, angle; every point of the object; every pair of slabs',
  why='tests render pictures of a few placed objects',
  files=['api/object.go', 'tracer/objects/transformed.go', 'geom/affinetransform.go'],
  mech=[('Object methods', 'api/object.go')],
  note=REAL + 'The object is an arbitrary stub with any box. Rotations: about the coordinate axes, any angle.'),
 dict(id='C32', title='Rendering saves the picture, all of it, or fails',
  statement='Render takes at least the passes asked for and writes the rendered, post-processed picture to the file given by -o in the format of its extension (png, jpg, jpeg) and to a pixmap of the same name: the size of the Spec and every pixel at its place with its color. '
            'If the format is unknown or either file cannot be created or written completely, the program ends with an error, and only then. Animate asks for each frame once, in order, renders it with the passes asked for, and saves each to its own numbered file.',
  over=['inputs', 'fault_sequences'],
  quant='sizes up to 2x2, any value of any channel of a pixel, passes 0 to 2, all extensions; a full disk for either file, a missing directory; animations of 0 to 3 frames',
  why='tests never save to a disk that is full, and compare pictures by eye or by a tolerance over the whole picture',
  files=['api/render.go', 'api/animate.go', 'imagef/ppm/ppm.go', 'imagef/image.go', 'tracer/sampler.go'],
  mech=[('Render', 'api/render.go'), ('Animate', 'api/animate.go')],
  note=REAL + 'Files and the PNG and JPEG codecs are models ("the file holds this image"), replays use real files. PNG is compared up to 8 bits, JPEG for uniform pictures only.'),
 dict(id='C31', title='Meshes are smooth, textured and follow their parametrisation',
  statement='The normal at a vertex of a mesh is the average of the normals of the faces sharing it, faces without an area excepted, and normals and texture coordinates are interpolated linearly within each face, whatever the order of faces and of their vertices; vertices passed in are not modified. '
            'A parametric surface evaluates its function at numU x numV steps from 0 to 1 inclusive, passes through these points without gaps, has the parameters as local coordinates and its normals on the side of dp/du x dp/dv; rays beside it miss.',
  quant='every point of the faces, two faces at the angles stated (thorough: every angle), every degenerate face, every texture coordinate; grids of 2x3 and 3x2 (thorough 2 to 3 each) with any one vertex moved',
  why='tests compare pictures of a few meshes',
  files=['tracer/objects/mesh.go', 'geom/util.go', 'tracer/objects/tree.go'],
  mech=[('calcNormals', 'tracer/objects/mesh.go'), ('Parametric', 'tracer/objects/mesh.go'), ('face.Intersect', 'tracer/objects/mesh.go')],
  note=REAL + 'Points on edges are excluded.'),
 dict(id='C34', title='Relief surfaces are hit where they cross the ray',
  statement='A ray that enters the box of a relief surface (IsoSurface) above the surface and crosses it once hits it there, within the search tolerance, with the normal of the slope, the local coordinates and the material; rays that stay above, miss the box or have it behind pass. '
            'A ray starting within the box above the surface hits what lies ahead of it and nothing behind. Inside is what is in the box below the surface, and the bounds are the box.',
  quant='every plane of moderate slope, every width and depth of the box, every such ray meeting the surface at stated depths; valleys with hills of any slope on either side of the ray',
  why='tests show two constant surfaces; the ones with slopes are skipped as failing',
  files=['tracer/objects/isosurface.go', 'tracer/objects/boundingbox.go'],
  mech=[('isoSurface.Intersect, bisect', 'tracer/objects/isosurface.go')],
  note=REAL + 'Surfaces crossed several times by the ray, and rays starting below, are outside of the claim (the search is documented as approximate).'),
 dict(id='C28', title='The preview server shows the requested view and bakes one picture at a time',
  statement='The server answers preview and bake requests with a picture of exactly the requested view of its scene: size, position and direction, whatever was requested before. Baking the same view again adds samples, and the picture is the mean of all samples baked for this view; a new view starts afresh, and previews do not interfere. '
            'At most one picture is baked at a time, cancelled or not: further requests do not touch it, and concurrent requests do not race. Cancelling succeeds at any time, also when there is nothing to cancel. Requests that cannot be read, or views that cannot be rendered, are refused, and baking works again afterwards.',
  over=['inputs', 'schedules'],
  quant='every position and direction of the view, sizes up to 3x2, every sample value; every sequence of 3 (thorough 4) requests among bakes of two views, previews, cancels, unreadable bodies and impossible views; a bake, cancel or preview during a bake, at any time, with one preemption (thorough two) at synchronisation points',
  why='no test starts the server; the races need a cancel during a bake followed by another bake',
  files=['api/server.go', 'api/view.go', 'tracer/sampler.go'],
  mech=[('renderView, prepareBakery, handleCancel', 'api/server.go')],
  note=REAL + 'net/http, JSON and gob are models (a request body holds a view, a reply a picture; a panic of a handler breaks its connection only); replays run the real server on the loopback network. That cancelling shortens a bake is not claimed (a TODO of the code).'),
dict(id='C30', title='Rays are nobody else\'s while they are in use',
  statement='A ray taken from a context is empty and is not one that is in use. While a ray is followed - through any material, the materials seen in it, lights, media and the camera - nothing changes its start or direction or uses it for another ray, and when a picture has been evaluated the recursion depth is restored and every ray has been given back at most once.',
  over=['inputs', 'histories'],
  quant='every sequence of 5 (thorough 7) takes and returns; every pair of materials of the package, blends and two-sided ones included, one seen in the other, at any distance and (for mirrors and glass) inclination, with any light position; every camera; both fogs in either order',
  why='tests look at pictures of single materials, in which a shared ray is mostly read before it is overwritten',
  files=['tracer/ctx.go', 'tracer/scene.go', 'tracer/materials/reflective.go', 'tracer/materials/refractive.go', 'tracer/materials/transparent.go', 'tracer/materials/matte.go', 'tracer/materials/blend.go', 'tracer/media/fog.go', 'tracer/cameras/projective.go'],
  mech=[('Ray, PutRay, pool', 'tracer/ctx.go'), ('Shade', 'tracer/materials'), ('Filter', 'tracer/media/fog.go')],
  note=REAL + 'The object around the scene is a stub that checks the rays that reach it; nesting is two materials deep.'),
 dict(id='C35', title='Flags on the command line override the scene',
  statement='Rendering or animating with -w, -h, -n or -r makes the picture that a scene with that width, height, number of passes or recursion depth gives; what is not on the command line is taken from the scene. -q sets the quality of saved JPEG files, otherwise it is 90 or what the program has set JPEGQuality to.',
  quant='sizes, passes and recursion depths of up to 3, given and not given by the scene and the flag, every quality; Render and Animate',
  why='no test starts with flags, and reflections in the depth are not visible in most pictures',
  files=['api/api.go', 'api/render.go', 'api/animate.go', 'api/spec.go'],
  mech=[('flags, applyFlags', 'api/api.go'), ('Render', 'api/render.go'), ('renderFrame', 'api/animate.go')],
  note='The flags and files of the standard library are models in the engine and real in replays; -s and -halton are not covered (not used).'),
dict(id='C36', title='The viewer moves as told and ends up showing the current view',
  statement='In bruteray-view keys and the wheel move the camera by 5 cm relative to where it looks, when pressed only; dragging with the left button turns it by 0.005 rad per pixel, the pitch not beyond straight up and down; X, Y, Z and N toggle the isometric views and normals; resizing sets the size of the pictures. '
            'Whatever is pressed, and whenever the server fails: one bake runs at a time, none larger than the window, anti-aliased in full size only; a picture of an earlier view never replaces that of a later one; failed requests do not stop the viewer; it refines the picture of the last view up to the size of the window. '
            'While it is paused or the left button is down no bake is started, but changes are shown; other buttons and keys that are let go change nothing.',
  over=['inputs', 'schedules', 'fault_sequences'],
  quant='any position, angle and pointer coordinate; one or two keys pressed during any of the first requests, one failing request, a pause or drag at two moments; every schedule of the viewer, its bakery and the server without preemption',
  why='the viewer has no tests',
  files=['cmd/bruteray-view/main.go', 'api/view.go'],
  mech=[('handleEvent, moveCam, toggleIsometric', 'cmd/bruteray-view/main.go'), ('run, repaintIfNeeded, handleBakery, cancelBaking, goBakeAndSend, fetchHTTP', 'cmd/bruteray-view/main.go')],
  note='The source of cmd/bruteray-view is compiled as a package of the harness (an overlay generated in every run). The screen driver (shiny) is replaced by a window that records; HTTP, JSON and gob are models in the engine and real (on the loopback) in replays. The server is one of the harness, with pictures that tell the view.'),
]
