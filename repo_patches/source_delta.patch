From 76ed903c5b8c3bb7c8bd67a1ad96809fad93c5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:46 +0000
Subject: [PATCH 01/27] fix: rays starting on a bounding box face intersect the
 box

---
 tracer/objects/boundingbox.go | 3 ++-
 tracer/objects/tree.go        | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/tracer/objects/boundingbox.go b/tracer/objects/boundingbox.go
index 521a14b..a735097 100644
--- a/tracer/objects/boundingbox.go
+++ b/tracer/objects/boundingbox.go
@@ -138,7 +138,8 @@ func (s *BoundingBox) intersect(r *Ray) float64 {
 }
 
 func (s *BoundingBox) intersects(r *Ray) bool {
-	return s.intersect(r) > 0
+	_, tex := intersectAABB2(s, r)
+	return tex > 0
 }
 
 func max3(x, y, z float64) float64 {
diff --git a/tracer/objects/tree.go b/tracer/objects/tree.go
index f4aef4f..44b713a 100644
--- a/tracer/objects/tree.go
+++ b/tracer/objects/tree.go
@@ -246,7 +246,7 @@ func intersectAABBf(s *boundingBoxf, r *Ray) float64 {
 	if ten > tex {
 		return 0
 	}
-	if ten < 0 {
+	if ten <= 0 {
 		return tex
 	}
 	return ten
-- 
2.43.0


From d954eb8c7bb8ad9303230ce5a294fc06eb7d8882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:06 +0000
Subject: [PATCH 02/27] fix: a tree with a single leaf reports a miss as a miss

---
 tracer/objects/tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tracer/objects/tree.go b/tracer/objects/tree.go
index 44b713a..97a239e 100644
--- a/tracer/objects/tree.go
+++ b/tracer/objects/tree.go
@@ -94,6 +94,9 @@ func (n *node) Intersect(r *Ray) HitRecord {
 				front = frag
 			}
 		}
+		if front.T == 9e99 {
+			front.T = 0
+		}
 		return front
 	}
 
-- 
2.43.0


From eedc64da501ff45603dd693e3a2f571515ca99cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:00 +0000
Subject: [PATCH 03/27] fix: transforming an unbounded object no longer panics
 on NaN bounds

---
 tracer/objects/boundingbox.go | 10 ++++++++++
 tracer/objects/transformed.go |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/tracer/objects/boundingbox.go b/tracer/objects/boundingbox.go
index a735097..45ab9ac 100644
--- a/tracer/objects/boundingbox.go
+++ b/tracer/objects/boundingbox.go
@@ -164,6 +164,16 @@ func min3(x, y, z float64) float64 {
 	return min
 }
 
+// isInf returns true if b is unbounded in some direction.
+func (b *BoundingBox) isInf() bool {
+	for i := range b.Min {
+		if math.IsInf(b.Min[i], 0) || math.IsInf(b.Max[i], 0) {
+			return true
+		}
+	}
+	return false
+}
+
 var (
 	infBox = BoundingBox{Min: Vec{-inf, -inf, -inf}, Max: Vec{inf, inf, inf}}
 	inf    = math.Inf(1)
diff --git a/tracer/objects/transformed.go b/tracer/objects/transformed.go
index 0392af8..46afadd 100644
--- a/tracer/objects/transformed.go
+++ b/tracer/objects/transformed.go
@@ -63,6 +63,9 @@ func (o *transformed) Inside(p Vec) bool {
 }
 
 func transformBounds(orig BoundingBox, t *geom.AffineTransform) BoundingBox {
+	if orig.isInf() {
+		return infBox // transforming infinite corners would yield NaN
+	}
 	h := orig.hull()
 	for i := range h {
 		h[i] = t.TransformPoint(h[i])
-- 
2.43.0


From fe7b813f8dffea79d8cd94550a8a197b0696c5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:35 +0000
Subject: [PATCH 04/27] fix: round bounding boxes outward when converting to
 single precision

---
 tracer/objects/tree.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/tracer/objects/tree.go b/tracer/objects/tree.go
index 97a239e..c991eae 100644
--- a/tracer/objects/tree.go
+++ b/tracer/objects/tree.go
@@ -1,6 +1,7 @@
 package objects
 
 import (
+	"math"
 	"sort"
 
 	"github.com/barnex/bruteray/geom"
@@ -184,11 +185,21 @@ type boundingBoxf struct {
 	Min, Max [3]float32
 }
 
+// boundingBoxToF rounds outward, so that the result encloses b.
 func boundingBoxToF(b BoundingBox) boundingBoxf {
-	return boundingBoxf{
+	f := boundingBoxf{
 		Min: vecf(&b.Min),
 		Max: vecf(&b.Max),
 	}
+	for i := range f.Min {
+		if float64(f.Min[i]) > b.Min[i] {
+			f.Min[i] = math.Nextafter32(f.Min[i], float32(-inf))
+		}
+		if float64(f.Max[i]) < b.Max[i] {
+			f.Max[i] = math.Nextafter32(f.Max[i], float32(inf))
+		}
+	}
+	return f
 }
 
 func (b *boundingBoxf) to64() BoundingBox {
-- 
2.43.0


From 29c356cb9e762bd369fbc5d0185b7ece3806c6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:52 +0000
Subject: [PATCH 05/27] fix: antialiasing draws a new offset for every sample

The anti-aliasing sequence was never initialised for the pixel and pass, so that
every sample of every pixel used the same offset. It needs bases of its own:
it is drawn together with sequence1.
---
 tracer/ctx.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tracer/ctx.go b/tracer/ctx.go
index f932c68..fa9f45d 100644
--- a/tracer/ctx.go
+++ b/tracer/ctx.go
@@ -50,7 +50,7 @@ func NewCtx(numPix int) *Ctx {
 		sequence2: sequence.NewHalton(5, 7, 1, sh),
 		sequence3: sequence.PseudoRandom(),
 		sequenceL: sequence.NewHalton(5, 7, 11, sh),
-		AA:        sequence.NewHalton(2, 3, 1, sh),
+		AA:        sequence.NewHalton(11, 13, 1, sh),
 		rays:      pool{new: func() interface{} { return new(Ray) }},
 	}
 
@@ -69,6 +69,7 @@ func (c *Ctx) Init(pixel, pass int) {
 	c.sequence2.Init(pixel, pass)
 	c.sequence3.Init(pixel, pass)
 	c.sequenceL.Init(pixel, pass)
+	c.AA.Init(pixel, pass)
 }
 
 func (c *Ctx) Generate2() (u, v float64) {
-- 
2.43.0


From 61d339dad80a0a29a8b54323e256e0c1ee865f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:52 +0000
Subject: [PATCH 06/27] fix: portrait images stay within the unit square of the
 image sensor

IndexToCam and Camera.RayFrom document u and v to lie in [0,1]; for images
higher than wide v was not.
---
 sampler/util.go   | 10 +++++++---
 tracer/sampler.go |  5 +++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/sampler/util.go b/sampler/util.go
index 874bfa1..431c659 100644
--- a/sampler/util.go
+++ b/sampler/util.go
@@ -1,6 +1,9 @@
 package sampler
 
-import "fmt"
+import (
+	"fmt"
+	"math"
+)
 
 // IndexToCam maps a pixel index {ix, iy} inside an image with given width and height
 // onto a u,v coordinate strictly inside the interval [0,1].
@@ -29,8 +32,9 @@ func IndexToCam(w, h int, ix, iy float64) (u, v float64) {
 			w, h, ix, iy))
 	}
 
-	u = linterp(-0.5, 0, W-0.5, 1, ix)
-	v = linterp(-0.5, 0.5+0.5*(H/W), H-0.5, 0.5-0.5*(H/W), iy)
+	max := math.Max(W, H)
+	u = linterp(-0.5, 0.5-0.5*(W/max), W-0.5, 0.5+0.5*(W/max), ix)
+	v = linterp(-0.5, 0.5+0.5*(H/max), H-0.5, 0.5-0.5*(H/max), iy)
 	return u, v
 }
 
diff --git a/tracer/sampler.go b/tracer/sampler.go
index da0c020..646847a 100644
--- a/tracer/sampler.go
+++ b/tracer/sampler.go
@@ -247,8 +247,9 @@ func IndexToCam(w, h int, ix, iy float64) (u, v float64) {
 			w, h, ix, iy))
 	}
 
-	u = linterp(-0.5, 0, W-0.5, 1, ix)
-	v = linterp(-0.5, 0.5+0.5*(H/W), H-0.5, 0.5-0.5*(H/W), iy)
+	max := math.Max(W, H)
+	u = linterp(-0.5, 0.5-0.5*(W/max), W-0.5, 0.5+0.5*(W/max), ix)
+	v = linterp(-0.5, 0.5+0.5*(H/max), H-0.5, 0.5-0.5*(H/max), iy)
 	return u, v
 }
 
-- 
2.43.0


From 8f3ce3739ea28e09d95f8f7335fd3949d88ec628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:52 +0000
Subject: [PATCH 07/27] fix: antialiasing stays within the pixel

The offsets were those of a pixel of 1/min(w,h), but the pitch of pixels is 1/max(w,h).
---
 tracer/sampler.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tracer/sampler.go b/tracer/sampler.go
index 646847a..ac589a5 100644
--- a/tracer/sampler.go
+++ b/tracer/sampler.go
@@ -156,11 +156,10 @@ func (s *Sampler) imageSize() (w, h int) {
 	return s.sum.Size()
 }
 
-// ??
+// PixelSize returns the width and height of a pixel in the coordinates returned by IndexToCam.
 func PixelSize(w, h int) float64 {
 	wf, hf := float64(w), float64(h)
-	minf := math.Min(wf, hf)
-	return 1 / minf
+	return 1 / math.Max(wf, hf)
 }
 
 func makeInt2D(w, h int) [][]int {
-- 
2.43.0


From 89cdab946b0bb472178c6706d7eda62c5f113b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:49 +0000
Subject: [PATCH 08/27] fix: the focal plane is at the focus distance

It was at the focus distance times the focal length.
---
 tracer/cameras/projective.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/cameras/projective.go b/tracer/cameras/projective.go
index 453ec86..d7b967b 100644
--- a/tracer/cameras/projective.go
+++ b/tracer/cameras/projective.go
@@ -78,7 +78,7 @@ func (c *projective) RayFrom(ctx *Ctx, u, v float64) *Ray {
 		c.focalLen,
 	}
 	if c.focusDist != 0 {
-		end = end.Mul(c.focusDist)
+		end = end.Mul(c.focusDist / c.focalLen)
 	}
 	r.Dir = end.Sub(r.Start).Normalized()
 	return r
-- 
2.43.0


From ee3128cd288268b6217922cb1de30c270539956d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:51 +0000
Subject: [PATCH 09/27] fix: fog covers horizontal rays

A ray parallel to the surface of the fog is in the fog all the way or not at
all; dividing by its zero vertical direction gave NaN, and no fog.
---
 tracer/media/expfog.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tracer/media/expfog.go b/tracer/media/expfog.go
index 6b84033..50ba8bb 100644
--- a/tracer/media/expfog.go
+++ b/tracer/media/expfog.go
@@ -49,6 +49,12 @@ func intersectIntervals(start1, end1, start2, end2 float64) (start, end float64)
 func intersectHalfSpace(height float64, r *Ray) (ten, tex float64) {
 	rs := r.Start[1] - height
 	rd := r.Dir[1]
+	if rd == 0 { // parallel to the surface: always below it, or never
+		if rs < 0 {
+			return math.Inf(-1), math.Inf(1)
+		}
+		return 0, 0
+	}
 	ten = -rs / rd
 	tex = -r.Dir[1] / 0 // inf with same same as
 	if ten > tex {
-- 
2.43.0


From aa8faa1db6cfaf161a9ce1d9b289e4fc66c6a668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:42 +0000
Subject: [PATCH 10/27] fix: Encode48BE reports write errors

---
 imagef/ppm/ppm.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/imagef/ppm/ppm.go b/imagef/ppm/ppm.go
index 34b3304..9e4959a 100644
--- a/imagef/ppm/ppm.go
+++ b/imagef/ppm/ppm.go
@@ -40,12 +40,12 @@ func Encode48BE(w io.Writer, img imagef.Image) error {
 	for i := range img {
 		for j := range img[i] {
 			c := img[i][j]
-			encodeUint16BE(buf, uint16(trunc(c.R)))
-			w.Write(buf)
-			encodeUint16BE(buf, uint16(trunc(c.G)))
-			w.Write(buf)
-			encodeUint16BE(buf, uint16(trunc(c.B)))
-			w.Write(buf)
+			for _, v := range [3]float64{c.R, c.G, c.B} {
+				encodeUint16BE(buf, uint16(trunc(v)))
+				if _, err := w.Write(buf); err != nil {
+					return err
+				}
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 1a12eb2503c8350ce0a6b9782369b65b1dd879c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:42 +0000
Subject: [PATCH 11/27] fix: bloom with an all-black kernel leaves the image
 alone

Small star radii have an all-black kernel; normalising it gave NaN, and black
pixels around every bright one.
---
 imagef/post/convolution.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/imagef/post/convolution.go b/imagef/post/convolution.go
index 2d617cb..4cf1e50 100644
--- a/imagef/post/convolution.go
+++ b/imagef/post/convolution.go
@@ -23,6 +23,9 @@ func AddConvolution(dst, src, kern imagef.Image, amplitude, offset float64) imag
 			sum += (c.R + c.G + c.B) / 3
 		}
 	}
+	if sum == 0 { // nothing to spread (e.g. a star smaller than its central gap)
+		return dst
+	}
 	k := kern.Copy()
 	factor := amplitude / sum
 	for iy := range k {
-- 
2.43.0


From 9b5d333ed2951d9b6cd0937e1a564c2b55fd5e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:09 +0000
Subject: [PATCH 12/27] fix: looking up an image texture at an infinite
 position panicked

---
 texture/interpolation.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/texture/interpolation.go b/texture/interpolation.go
index 280cc4f..8e6d6bb 100644
--- a/texture/interpolation.go
+++ b/texture/interpolation.go
@@ -45,12 +45,13 @@ func (f *bilinear) AtUV(u, v float64) colorf.Color {
 	w := img.Bounds().Dx()
 	h := img.Bounds().Dy()
 
-	if u != u || v != v { //NaN
+	u, v = warp(u), warp(v)
+	if u != u || v != v { // NaN, also for infinite u, v
 		return colorf.Color{}
 	}
 
-	X := warp(u) * float64(w-1)
-	Y := warp(v) * float64(h-1)
+	X := u * float64(w-1)
+	Y := v * float64(h-1)
 	x0 := int(X)
 	y0 := int(Y)
 	x1 := x0 + 1
-- 
2.43.0


From c7876b0aec5409884688f726384c74c4f8c08b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:05 +0000
Subject: [PATCH 13/27] fix: OBJ and PLY files with face indices beyond the
 vertices were accepted and crashed the mesh

---
 tracer/objects/obj/parser.go | 10 ++++++++++
 tracer/objects/ply/parser.go |  7 +++++++
 2 files changed, 17 insertions(+)

diff --git a/tracer/objects/obj/parser.go b/tracer/objects/obj/parser.go
index a86093d..3df079c 100644
--- a/tracer/objects/obj/parser.go
+++ b/tracer/objects/obj/parser.go
@@ -46,6 +46,16 @@ func (p *parser) parseFile(fname string) {
 		p.parseLine(scanner.Text())
 	}
 	p.check(scanner.Err())
+
+	for _, faces := range p.obj.Faces {
+		for _, f := range faces {
+			for _, idx := range f {
+				if int(idx) >= len(p.obj.Vertices) {
+					p.errorf("invalid face index: %v", idx+1)
+				}
+			}
+		}
+	}
 }
 
 func (p *parser) parseLine(l string) {
diff --git a/tracer/objects/ply/parser.go b/tracer/objects/ply/parser.go
index f3a9d0f..fb1e46b 100644
--- a/tracer/objects/ply/parser.go
+++ b/tracer/objects/ply/parser.go
@@ -87,6 +87,13 @@ func (p *parser) parse() ([]geom.Vec, [][3]int) {
 		}
 
 	}
+	for _, f := range faces {
+		for _, idx := range f {
+			if idx < 0 || idx >= len(vertex) {
+				p.panicf("invalid face index: %v", idx)
+			}
+		}
+	}
 	return vertex, faces
 }
 
-- 
2.43.0


From 98d87e2101808bb948bc3eb19f5148967f3f8485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:05 +0000
Subject: [PATCH 14/27] fix: PLY files without a newline at the end were
 rejected

---
 tracer/objects/ply/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tracer/objects/ply/parser.go b/tracer/objects/ply/parser.go
index fb1e46b..a741cef 100644
--- a/tracer/objects/ply/parser.go
+++ b/tracer/objects/ply/parser.go
@@ -104,6 +104,9 @@ type parser struct {
 
 func (p *parser) readLine() string {
 	line, err := p.b.ReadString('\n')
+	if err == io.EOF && line != "" {
+		err = nil // last line without newline
+	}
 	p.check(err)
 	p.lastLine = line
 	return strings.TrimSpace(line)
-- 
2.43.0


From d859e88eba05b48e8563e2f5d986da02c83f026b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:46 +0000
Subject: [PATCH 15/27] fix: fisheye textures have a color at the horizon

---
 texture/uvmapper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/texture/uvmapper.go b/texture/uvmapper.go
index f3ad224..5281e26 100644
--- a/texture/uvmapper.go
+++ b/texture/uvmapper.go
@@ -25,7 +25,7 @@ func MapFisheye(t Texture) Texture {
 	return &mapped{t, func(dir Vec) (u, v float64) {
 		dir = dir.Normalized()
 		r := math.Sqrt(dir[Z]*dir[Z] + dir[X]*dir[X])
-		r = math.Asin(r) / (math.Pi / 2)
+		r = math.Asin(math.Min(r, 1)) / (math.Pi / 2) // rounding may cause r > 1
 		//dir = dir.Mul(r)
 		th := math.Atan2(dir[Z], dir[X])
 		x := r * math.Cos(th)
-- 
2.43.0


From dcca8b3173c981124c234c9f8b104bbdccd2a8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:49 +0000
Subject: [PATCH 16/27] fix: an incompletely written pixmap is an error

---
 api/render.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/api/render.go b/api/render.go
index f24ccb9..63d5321 100644
--- a/api/render.go
+++ b/api/render.go
@@ -131,6 +131,8 @@ func savePPM(fname string, img imagef.Image) error {
 	}
 	defer f.Close()
 	w := bufio.NewWriter(f)
-	defer w.Flush()
-	return ppm.EncodeAscii16(w, img)
+	if err := ppm.EncodeAscii16(w, img); err != nil {
+		return err
+	}
+	return w.Flush()
 }
-- 
2.43.0


From 047743348a2a9a1b1516ca86321a655ff971701e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:31 +0000
Subject: [PATCH 17/27] fix: normals of relief surfaces wider or deeper than 1
 were too steep

---
 tracer/objects/isosurface.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/objects/isosurface.go b/tracer/objects/isosurface.go
index cddcc05..f883e13 100644
--- a/tracer/objects/isosurface.go
+++ b/tracer/objects/isosurface.go
@@ -103,7 +103,7 @@ func (f *isoSurface) partialAtUV(uv Vec2) Vec2 {
 // TODO: precompute and store
 func (f *isoSurface) normalAtUV(uv Vec2) Vec {
 	diff := f.partialAtUV(uv)
-	return Vec{-diff[0], 1, -diff[1]}
+	return Vec{-diff[0] / f.bounds.Max[X], 1, -diff[1] / f.bounds.Max[Z]}
 }
 
 func (o *isoSurface) localUV(p Vec) Vec2 {
-- 
2.43.0


From 67daa2e624913d3d7dec7f20a22640dc346f0f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:45 +0000
Subject: [PATCH 18/27] fix: rays starting within the box of a relief surface
 were intersected behind their start

---
 tracer/objects/isosurface.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tracer/objects/isosurface.go b/tracer/objects/isosurface.go
index f883e13..c606b52 100644
--- a/tracer/objects/isosurface.go
+++ b/tracer/objects/isosurface.go
@@ -2,6 +2,7 @@ package objects
 
 import (
 	"fmt"
+	"math"
 
 	. "github.com/barnex/bruteray/tracer/types"
 )
@@ -52,8 +53,8 @@ func (s *isoSurface) Intersect(r *Ray) HitRecord {
 		return HitRecord{}
 	}
 
-	// brute-force intersection with height map
-	t := s.bisect(r, t1-Tiny, t2+Tiny) // Tiny offset to avoid bleeding when surface exactly touches bounding box
+	// brute-force intersection with height map, in front of the ray
+	t := s.bisect(r, math.Max(0, t1-Tiny), t2+Tiny) // Tiny offset to avoid bleeding when surface exactly touches bounding box
 	if t == 0 {
 		return HitRecord{}
 	}
-- 
2.43.0


From 2ed8120bb893b26980c8dae70cabcf70cd965948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:50 +0000
Subject: [PATCH 19/27] fix: a view that cannot be rendered left the server
 baking forever

---
 api/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/server.go b/api/server.go
index 8a48748..39ea283 100644
--- a/api/server.go
+++ b/api/server.go
@@ -122,7 +122,6 @@ func (s *server) prepareBakery(v View) (chan struct{}, error) {
 	if s.cancel != nil {
 		return nil, errors.New("already baking")
 	}
-	s.cancel = make(chan struct{})
 
 	if s.smplr == nil || s.smplrView != v {
 		spec := v.ApplyTo(s.spec)
@@ -131,6 +130,7 @@ func (s *server) prepareBakery(v View) (chan struct{}, error) {
 		s.smplrNum = 1
 	}
 
+	s.cancel = make(chan struct{})
 	return s.cancel, nil
 }
 
-- 
2.43.0


From cfa096243c5c321782e8c514874a4b98a6c163a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:50 +0000
Subject: [PATCH 20/27] fix: after a cancel, two pictures could be baked at a
 time

---
 api/server.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/api/server.go b/api/server.go
index 39ea283..4c48258 100644
--- a/api/server.go
+++ b/api/server.go
@@ -140,8 +140,13 @@ func (s *server) handleCancel(w http.ResponseWriter, r *http.Request) error {
 	if s.cancel == nil {
 		return nil // already done
 	}
-	close(s.cancel)
-	s.cancel = nil
+	// s.cancel is reset when the baking ends:
+	// until then no other one may use the sampler.
+	select {
+	case <-s.cancel: // already cancelled
+	default:
+		close(s.cancel)
+	}
 	return nil
 }
 
-- 
2.43.0


From dbf8c904252d5625c4b9855ce80587a5ed1cd3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:01 +0000
Subject: [PATCH 21/27] fix: views of a scene without a camera crashed

---
 api/spec.go | 6 +++++-
 api/view.go | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/api/spec.go b/api/spec.go
index 99f616d..35b5614 100644
--- a/api/spec.go
+++ b/api/spec.go
@@ -55,7 +55,7 @@ func (s *Spec) InitDefaults() {
 		s.NumPass = 1
 	}
 	if s.Camera == nil {
-		s.Camera = Projective(90 * Deg).Translate(V(0, 1, 0))
+		s.Camera = defaultCamera()
 	}
 	if s.Width == 0 && s.Height == 0 {
 		s.Width = defaultImageWidth
@@ -85,6 +85,10 @@ func (s *Spec) InitDefaults() {
 	}
 }
 
+func defaultCamera() tracer.Camera {
+	return Projective(90 * Deg).Translate(V(0, 1, 0))
+}
+
 func (s *Spec) applyMaterial(m tracer.Material) {
 	orig := s.Objects
 	s.Objects = make([]Object, 0, len(orig))
diff --git a/api/view.go b/api/view.go
index 0586130..9ad7e00 100644
--- a/api/view.go
+++ b/api/view.go
@@ -23,6 +23,9 @@ type View struct {
 func (v *View) ApplyTo(s Spec) Spec {
 	s.Width = v.Width
 	s.Height = v.Height
+	if s.Camera == nil {
+		s.Camera = defaultCamera()
+	}
 	s.Camera = cameras.Transform(s.Camera, geom.YawPitchRoll(v.CamYaw, v.CamPitch, 0).A, v.CamPos)
 
 	s.DebugNormals = v.DebugNormals
-- 
2.43.0


From 1c4d30697a03f6cef5552a9606bb3d37d0b8eb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:39 +0000
Subject: [PATCH 22/27] fix: a box seen from far away crashed the program

---
 tracer/objects/box.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/tracer/objects/box.go b/tracer/objects/box.go
index cb908c3..e7b587d 100644
--- a/tracer/objects/box.go
+++ b/tracer/objects/box.go
@@ -1,7 +1,6 @@
 package objects
 
 import (
-	"fmt"
 	"math"
 
 	. "github.com/barnex/bruteray/tracer/types"
@@ -52,21 +51,24 @@ func (b *box) Intersect(r *Ray) HitRecord {
 	return HitRecord{T: t, Normal: b.normal(p), Material: b.mat, Local: p.Sub(b.bounds.Min)}
 }
 
+// normal returns the outward normal of the face closest to p,
+// or the first of those that are about equally close.
 func (b *box) normal(p Vec) Vec {
+	const tolerance = 1e-8
 	s := &b.bounds
+	normal := Vec{}
+	min := math.Inf(1)
 	for i := range p {
-		if approx(p[i], s.Min[i]) {
-			return unit[i].Mul(-1)
+		if d := math.Abs(p[i] - s.Min[i]); d+tolerance < min {
+			min = d
+			normal = unit[i].Mul(-1)
 		}
-		if approx(p[i], s.Max[i]) {
-			return unit[i]
+		if d := math.Abs(p[i] - s.Max[i]); d+tolerance < min {
+			min = d
+			normal = unit[i]
 		}
 	}
-	panic(fmt.Sprint("box.normal", p, s.Min, s.Max))
-}
-
-func approx(a, b float64) bool {
-	return math.Abs(a-b) < 1e-8
+	return normal
 }
 
 var unit = [3]Vec{Ex, Ey, Ez}
-- 
2.43.0


From 8e6e01c598a5291add0bdb8f5e016e61a0e26819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:25 +0000
Subject: [PATCH 23/27] fix: an empty tree, and files without faces, crashed

---
 tracer/objects/tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tracer/objects/tree.go b/tracer/objects/tree.go
index c991eae..e309bf3 100644
--- a/tracer/objects/tree.go
+++ b/tracer/objects/tree.go
@@ -169,6 +169,9 @@ func intersectAABB(s *BoundingBox, r *Ray) float64 {
 // that countains all points in hull.
 // TODO: do not use intermediate memory
 func makeBoundingBox(children []Interface) BoundingBox {
+	if len(children) == 0 {
+		return BoundingBox{} // nothing to be hit
+	}
 	var hull []Vec
 	for _, c := range children {
 		cbb := c.Bounds()
-- 
2.43.0


From 47b8ea7876725db9cecfa38fdc0d4164cd5a483f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:34 +0000
Subject: [PATCH 24/27] fix: -w -h -n -r -q override size, passes, recursion
 and JPEG quality, as their help says

The flags were parsed but never used.
---
 api/animate.go |  1 +
 api/api.go     | 25 +++++++++++++++++++------
 api/render.go  |  1 +
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/api/animate.go b/api/animate.go
index 1d0eb65..6851a1f 100644
--- a/api/animate.go
+++ b/api/animate.go
@@ -19,6 +19,7 @@ func Animate(numFrame int, f func(frame int) Spec) {
 }
 
 func renderFrame(spec Spec, i int) {
+	spec.applyFlags()
 	spec.InitDefaults()
 
 	aa := (spec.NumPass > 1)
diff --git a/api/api.go b/api/api.go
index 4f03654..7560345 100644
--- a/api/api.go
+++ b/api/api.go
@@ -98,12 +98,25 @@ func initFlags() {
 	if flag.NArg() != 0 {
 		fatal("No command-line arguments allowed, have:", flag.Args())
 	}
-	//	if *flagR != 0 {
-	//		Recursion = *flagR
-	//	}
-	//	if *flagN != 0 {
-	//		NumPass = *flagN
-	//	}
+}
+
+// applyFlags overrides s by what was set on the command line.
+func (s *Spec) applyFlags() {
+	if *flagW != 0 {
+		s.Width = *flagW
+	}
+	if *flagH != 0 {
+		s.Height = *flagH
+	}
+	if *flagN != 0 {
+		s.NumPass = *flagN
+	}
+	if *flagR != 0 {
+		s.Recursion = *flagR
+	}
+	if *flagQ != 0 {
+		JPEGQuality = *flagQ
+	}
 }
 
 func print(x ...interface{}) {
diff --git a/api/render.go b/api/render.go
index 63d5321..0d55b60 100644
--- a/api/render.go
+++ b/api/render.go
@@ -32,6 +32,7 @@ func Render(spec Spec) {
 	//}else{
 	//	tracer.RandomSequence = random.PseudoRandom
 	//}
+	spec.applyFlags()
 	spec.InitDefaults()
 
 	if *flagPProf != "" {
-- 
2.43.0


From ca3cc79a2a231ccaeedb9cbdbc83e6d8b834d97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:31 +0000
Subject: [PATCH 25/27] fix: what is behind a transparent surface casts a
 shadow, also if it is part of the same object

Occlude asked each object for its first surface only: when that was transparent,
opaque parts of the same object behind it (e.g. in a Tree) let the light through.
---
 tracer/scene.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/tracer/scene.go b/tracer/scene.go
index 674eb8a..ce57447 100644
--- a/tracer/scene.go
+++ b/tracer/scene.go
@@ -119,13 +119,21 @@ func (s *Scene) ObjectsAndLights() []Object {
 
 func (s *Scene) Occlude(r *Ray, len float64, orig Color) Color {
 	for _, o := range s.objects { // range over objects only, lights are considered transparent
-		f := o.Intersect(r)
-		if f.T > 0 && f.T < len {
-			if trans, ok := f.Material.(TransparentMaterial); ok {
-				orig = trans.Filter(r, f, orig)
-			} else {
+		sec, dist := *r, 0.0
+		for f := o.Intersect(r); f.T > 0 && dist+f.T < len; f = o.Intersect(&sec) {
+			trans, ok := f.Material.(TransparentMaterial)
+			if !ok {
 				return Color{}
 			}
+			orig = trans.Filter(&sec, f, orig)
+
+			// the same object may have more surfaces behind this one
+			next := dist + f.T + Tiny
+			if next == dist {
+				break // too far away to tell them apart
+			}
+			dist = next
+			sec.Start = r.At(dist)
 		}
 	}
 	return orig
-- 
2.43.0


From 8ea86425c9af96c39bc4b74f492fc0253be8ddbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:57 +0000
Subject: [PATCH 26/27] fix: a point light could not be transformed (panic)

---
 tracer/lights/pointlight.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tracer/lights/pointlight.go b/tracer/lights/pointlight.go
index ad28b1d..95e073d 100644
--- a/tracer/lights/pointlight.go
+++ b/tracer/lights/pointlight.go
@@ -1,6 +1,7 @@
 package lights
 
 import (
+	"github.com/barnex/bruteray/tracer/objects"
 	. "github.com/barnex/bruteray/tracer/types"
 )
 
@@ -24,3 +25,12 @@ func (l *point) Object() Object {
 func (*point) Intersect(*Ray) HitRecord {
 	return HitRecord{}
 }
+
+// Bounds and Inside make it an objects.Interface, so that a point light can be Transformed.
+func (l *point) Bounds() objects.BoundingBox {
+	return objects.BoundingBox{Min: l.pos, Max: l.pos}
+}
+
+func (*point) Inside(Vec) bool {
+	return false
+}
-- 
2.43.0


From 60843c448f549c16173f472256159e60f303e32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:40 +0000
Subject: [PATCH 27/27] fix: PLY files with other elements before their
 vertices or faces were misread

---
 tracer/objects/ply/parser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tracer/objects/ply/parser.go b/tracer/objects/ply/parser.go
index a741cef..9a391e9 100644
--- a/tracer/objects/ply/parser.go
+++ b/tracer/objects/ply/parser.go
@@ -43,17 +43,26 @@ func (p *parser) parse() ([]geom.Vec, [][3]int) {
 	}
 
 	var numVertex, numFace int
+	elements := "" // initials, in the order of their data
 	for l := p.readLine(); l != "end_header"; l = p.readLine() {
 		switch {
 		case strings.HasPrefix(l, "element vertex "):
 			numVertex = p.atoi(l[len("element vertex "):])
+			elements += "v"
 		case strings.HasPrefix(l, "element face "):
 			numFace = p.atoi(l[len("element face "):])
+			elements += "f"
+		case strings.HasPrefix(l, "element "):
+			elements += "?"
 		case l == "end_header":
 			break
 		}
 	}
 
+	if strings.IndexByte(elements, 'v') > 0 || strings.IndexByte(elements, 'f') > 1 {
+		p.panicf("need vertices first, then faces")
+	}
+
 	vertex := make([]geom.Vec, numVertex)
 	for i := 0; i < numVertex; i++ {
 		fields := strings.Fields(p.readLine())
-- 
2.43.0

