From d069381642075cdddb2ed70087bff3a198f583ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 01/60] fix: relative_tolerance_comparison_policy names
 std::sqrt where it calls abs

The four order comparisons call abs() on scalars but introduce std::sqrt, so
the call reaches geometrix::abs, whose return type is ill-formed for scalars;
with clang the policy does not compile.
---
 geometrix/numeric/number_comparison_policy.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geometrix/numeric/number_comparison_policy.hpp b/geometrix/numeric/number_comparison_policy.hpp
index 9d9ea67..6600c34 100644
--- a/geometrix/numeric/number_comparison_policy.hpp
+++ b/geometrix/numeric/number_comparison_policy.hpp
@@ -519,28 +519,28 @@ public:
 	template <typename NumericType1, typename NumericType2>
 	bool less_than(const NumericType1& u, const NumericType2& v) const
 	{
-		using std::sqrt;
+		using std::abs;
 		return (u - v) < -m_tolerance * (abs(u) + abs(v) + 1);
 	};
 
 	template <typename NumericType1, typename NumericType2>
 	bool less_than_or_equal(const NumericType1& u, const NumericType2& v) const
 	{
-		using std::sqrt;
+		using std::abs;
 		return (u - v) <= m_tolerance * (abs(u) + abs(v) + 1);
 	};
 
 	template <typename NumericType1, typename NumericType2>
 	bool greater_than(const NumericType1& u, const NumericType2& v) const
 	{
-		using std::sqrt;
+		using std::abs;
 		return (u - v) > m_tolerance * (abs(u) + abs(v) + 1);
 	};
 
 	template <typename NumericType1, typename NumericType2>
 	bool greater_than_or_equal(const NumericType1& u, const NumericType2& v) const
 	{
-		using std::sqrt;
+		using std::abs;
 		return (u - v) >= -m_tolerance * (abs(u) + abs(v) + 1);
 	};
 
-- 
2.43.0


From 420652bdd513a56778ce58b940a1248110295b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:17 +0000
Subject: [PATCH 02/60] fix: matrix * scalar indexes the matrix (left) operand,
 not the scalar

---
 geometrix/algebra/functions/multiplication.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algebra/functions/multiplication.hpp b/geometrix/algebra/functions/multiplication.hpp
index 6844684..816c698 100644
--- a/geometrix/algebra/functions/multiplication.hpp
+++ b/geometrix/algebra/functions/multiplication.hpp
@@ -193,7 +193,7 @@ namespace geometrix {
 
             result_type operator()(tag_t, const Left& l, const Right& r ) const
             {
-                return do_multiplies(get<Row, Column>( r ), get( l ));
+                return do_multiplies(get<Row, Column>( l ), get( r ));
             }
         };
     };
-- 
2.43.0


From 0f9d6326090844a989d915fd9a8fe8e70cd0b0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:17 +0000
Subject: [PATCH 03/60] fix: point_point_distance(_sqrd) counts the last
 coordinate in 5 or more dimensions

---
 geometrix/algorithm/distance/point_point_distance.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/distance/point_point_distance.hpp b/geometrix/algorithm/distance/point_point_distance.hpp
index f738efa..c3ddf69 100644
--- a/geometrix/algorithm/distance/point_point_distance.hpp
+++ b/geometrix/algorithm/distance/point_point_distance.hpp
@@ -53,7 +53,7 @@ namespace geometrix {
 
             static result_type eval(const Point1& v1, const Point2& v2)
             {
-                BOOST_AUTO(a, get<Index - 1>(v2) - get<Index - 1>(v1));
+                BOOST_AUTO(a, get<Index>(v2) - get<Index>(v1));
                 return a * a + distance_sqrd<Point1, Point2, Index - 1>::eval(v1, v2);
             }
         };
-- 
2.43.0


From 8032fb83fde6ecbdd577bfe59decc65acd4b5870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:47 +0000
Subject: [PATCH 04/60] fix: lexicographical_segment_compare orders the first
 segment by its own end point

---
 geometrix/utility/utilities.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/utility/utilities.hpp b/geometrix/utility/utilities.hpp
index 6f7be0a..7cfa733 100644
--- a/geometrix/utility/utilities.hpp
+++ b/geometrix/utility/utilities.hpp
@@ -481,7 +481,7 @@ namespace geometrix {
             typedef typename geometric_traits< Segment >::point_type point_type;
 
             const point_type& start1 = get_start( s1 );
-            const point_type& end1   = get_end( s2 );
+            const point_type& end1   = get_end( s1 );
             const point_type& start2 = get_start( s2 );
             const point_type& end2   = get_end( s2 );
 
-- 
2.43.0


From 5550ca034f13be6a3c2290c36e505626c74a2554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:47 +0000
Subject: [PATCH 05/60] fix: coordinate_less_compare sorts by less-than order
 as documented

---
 geometrix/utility/utilities.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/utility/utilities.hpp b/geometrix/utility/utilities.hpp
index 7cfa733..da611ff 100644
--- a/geometrix/utility/utilities.hpp
+++ b/geometrix/utility/utilities.hpp
@@ -764,7 +764,7 @@ namespace geometrix {
 
         bool operator() ( const CoordinateType& lhs, const CoordinateType& rhs ) const
         {
-            return m_compare.less_than( rhs, lhs );
+            return m_compare.less_than( lhs, rhs );
         }
 
         NumberComparisonPolicy m_compare;
-- 
2.43.0


From 8aca8d764419512ccac0d8ff2a7045362c6cb784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:04 +0000
Subject: [PATCH 06/60] fix: segment_obb_distance measures the box's fourth
 edge, not its diagonal

---
 geometrix/algorithm/distance/segment_obb_distance.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/distance/segment_obb_distance.hpp b/geometrix/algorithm/distance/segment_obb_distance.hpp
index 061a3a4..2c5b599 100644
--- a/geometrix/algorithm/distance/segment_obb_distance.hpp
+++ b/geometrix/algorithm/distance/segment_obb_distance.hpp
@@ -33,7 +33,7 @@ namespace geometrix {
 		auto sqDistance = segment_segment_distance_sqrd(seg, make_segment(obb[0], obb[1]), cmp);
 		sqDistance = (std::min)(sqDistance, segment_segment_distance_sqrd(seg, make_segment(obb[1], obb[2]), cmp));
 		sqDistance = (std::min)(sqDistance, segment_segment_distance_sqrd(seg, make_segment(obb[2], obb[3]), cmp));
-		return (std::min)(sqDistance, segment_segment_distance_sqrd(seg, make_segment(obb[3], obb[1]), cmp));
+		return (std::min)(sqDistance, segment_segment_distance_sqrd(seg, make_segment(obb[3], obb[0]), cmp));
 	}
 
 	namespace result_of
-- 
2.43.0


From b5f04a6d3d695bd8b682ca85937bf5cbd0f8d432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:04 +0000
Subject: [PATCH 07/60] fix: aabb_aabb_distance accepts 3D boxes and measures
 their z gap along z

---
 geometrix/algorithm/distance/aabb_aabb_distance.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geometrix/algorithm/distance/aabb_aabb_distance.hpp b/geometrix/algorithm/distance/aabb_aabb_distance.hpp
index d3edb1f..fecc647 100644
--- a/geometrix/algorithm/distance/aabb_aabb_distance.hpp
+++ b/geometrix/algorithm/distance/aabb_aabb_distance.hpp
@@ -66,8 +66,8 @@ namespace geometrix {
             return sqDist;
 		}
 
-		template <typename Point, typename NumericSequence>
-		inline typename result_of::aabb_aabb_distance_sqrd<NumericSequence>::type aabb_aabb_distance_sqrd( const axis_aligned_bounding_box<NumericSequence>& aabb1, const axis_aligned_bounding_box<NumericSequence>& aabb2, dimension<2> )
+		template <typename NumericSequence>
+		inline typename result_of::aabb_aabb_distance_sqrd<NumericSequence>::type aabb_aabb_distance_sqrd( const axis_aligned_bounding_box<NumericSequence>& aabb1, const axis_aligned_bounding_box<NumericSequence>& aabb2, dimension<3> )
 		{
 			using result_type = typename result_of::aabb_aabb_distance_sqrd<NumericSequence>::type;
 
@@ -96,7 +96,7 @@ namespace geometrix {
             //! z
             {
                 if(get<2>(ub2) < get<2>(lb1))
-                    sqDist += square(get<2>(ub2) - get<1>(lb1));
+                    sqDist += square(get<2>(ub2) - get<2>(lb1));
                 else if(get<2>(lb2) > get<2>(ub1))
                     sqDist += square(get<2>(lb2) - get<2>(ub1));
             }
-- 
2.43.0


From ce107e2242f594247137a1f6bba5a3ad2bc949c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 08/60] fix: measure the closing edges in
 polygon_polygon_distance and polygon_polygon_closest_point

---
 .../polygon_polygon_closest_point.hpp         | 21 ++++++++++++++++++-
 .../distance/polygon_polygon_distance.hpp     |  4 +++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/distance/polygon_polygon_closest_point.hpp b/geometrix/algorithm/distance/polygon_polygon_closest_point.hpp
index 3f1ce45..4072401 100644
--- a/geometrix/algorithm/distance/polygon_polygon_closest_point.hpp
+++ b/geometrix/algorithm/distance/polygon_polygon_closest_point.hpp
@@ -103,7 +103,26 @@ namespace geometrix {
         using point_t = typename point_sequence_traits<Polygon1>::point_type;
         using length_t = typename arithmetic_type_of<point_t>::type;
         using area_t = decltype(std::declval<length_t>() * std::declval<length_t>());
-        area_t minDist2 = point_point_distance_sqrd(access1::get_point(p1, 0), access2::get_point(p2, 0));
+        //! The index ranges below do not wrap, so the closing edges are measured here.
+        i1 = access1::size(p1) - 1;
+        area_t minDist2 = segment_polygon_closest_point(access1::get_point(p1, i1), access1::get_point(p1, 0), p2, i2, s, t, c1, c2, cmp);
+        {
+            auto sl = Dimensionless{};
+            auto tl = Dimensionless{};
+            Point c1l, c2l;
+            std::size_t i1l, i2l = access2::size(p2) - 1;
+            auto dl = segment_polygon_closest_point(access2::get_point(p2, i2l), access2::get_point(p2, 0), p1, i1l, tl, sl, c2l, c1l, cmp);
+            if(dl < minDist2)
+            {
+                minDist2 = dl;
+                i1 = i1l;
+                i2 = i2l;
+                s = sl;
+                t = tl;
+                c1 = c1l;
+                c2 = c2l;
+            }
+        }
 
         using index_range = std::tuple<std::size_t, std::size_t>;
         using work_item = std::tuple<index_range, index_range, area_t>;
diff --git a/geometrix/algorithm/distance/polygon_polygon_distance.hpp b/geometrix/algorithm/distance/polygon_polygon_distance.hpp
index 09b117d..17d359c 100644
--- a/geometrix/algorithm/distance/polygon_polygon_distance.hpp
+++ b/geometrix/algorithm/distance/polygon_polygon_distance.hpp
@@ -95,7 +95,9 @@ namespace geometrix {
 		using point_t = typename point_sequence_traits<Polygon1>::point_type;
 		using length_t = typename geometric_traits<point_t>::arithmetic_type;
 		using area_t = decltype(std::declval<length_t>() * std::declval<length_t>());
-		area_t minDist2 = point_point_distance_sqrd(access1::get_point(p1, 0), access2::get_point(p2, 0));
+		//! The index ranges below do not wrap, so the closing edges are measured here.
+		area_t minDist2 = segment_polygon_distance_sqrd(access1::get_point(p1, access1::size(p1) - 1), access1::get_point(p1, 0), p2, cmp);
+		minDist2 = (std::min)(minDist2, segment_polygon_distance_sqrd(access2::get_point(p2, access2::size(p2) - 1), access2::get_point(p2, 0), p1, cmp));
 
 		using index_range = std::tuple<std::size_t, std::size_t>;
 		using work_item = std::tuple<index_range, index_range, area_t>;
-- 
2.43.0


From d7561a2b880aaf3e3a5c9554bf2824628fd44c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 09/60] fix: initialise the outputs of
 polyline_polyline_closest_point

---
 .../algorithm/distance/polyline_polyline_closest_point.hpp    | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geometrix/algorithm/distance/polyline_polyline_closest_point.hpp b/geometrix/algorithm/distance/polyline_polyline_closest_point.hpp
index c9df598..eddcd8b 100644
--- a/geometrix/algorithm/distance/polyline_polyline_closest_point.hpp
+++ b/geometrix/algorithm/distance/polyline_polyline_closest_point.hpp
@@ -103,6 +103,10 @@ namespace geometrix {
         using length_t = typename arithmetic_type_of<point_t>::type;
         using area_t = decltype(std::declval<length_t>() * std::declval<length_t>());
         area_t minDist2 = point_point_distance_sqrd(access1::get_point(p1, 0), access2::get_point(p2, 0));
+        i1 = i2 = 0;
+        s = t = Dimensionless{};
+        assign(c1, access1::get_point(p1, 0));
+        assign(c2, access2::get_point(p2, 0));
 
         using index_range = std::tuple<std::size_t, std::size_t>;
         using work_item = std::tuple<index_range, index_range, area_t>;
-- 
2.43.0


From 2c6841f867767a41c390ddf35cdfa757cad10f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:11 +0000
Subject: [PATCH 10/60] fix: segment_segment_closest_point accepts 3D segments

---
 geometrix/algorithm/distance/segment_segment_closest_point.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/distance/segment_segment_closest_point.hpp b/geometrix/algorithm/distance/segment_segment_closest_point.hpp
index 792f7a5..3ffa248 100644
--- a/geometrix/algorithm/distance/segment_segment_closest_point.hpp
+++ b/geometrix/algorithm/distance/segment_segment_closest_point.hpp
@@ -33,7 +33,7 @@ namespace geometrix {
         using dimensionless_t = typename geometric_traits<Point>::dimensionless_type;
         using length_t = typename geometric_traits<Point>::arithmetic_type;
         using area_t = decltype(length_t() * length_t());
-        using vector_t = vector<length_t, 2>;
+        using vector_t = vector<length_t, dimension_of<Point>::value>;
 
         const auto zeroArea = constants::zero<area_t>();
         const auto zero = constants::zero<dimensionless_t>();
-- 
2.43.0


From 1906005936ef445626509844d70f34c5b3160e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:59 +0000
Subject: [PATCH 11/60] fix: is_collinear_point_between on a zero-length
 segment accepts only that point

---
 geometrix/utility/utilities.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geometrix/utility/utilities.hpp b/geometrix/utility/utilities.hpp
index da611ff..39a00bf 100644
--- a/geometrix/utility/utilities.hpp
+++ b/geometrix/utility/utilities.hpp
@@ -199,6 +199,10 @@ namespace geometrix {
         }
         else
         {
+            //! A and B coincide, only that point is between them.
+            if( compare.equals( get<1>( A ), get<1>( B ) ) )
+                return includeBounds && compare.equals( get<0>( A ), get<0>( C ) ) && compare.equals( get<1>( A ), get<1>( C ) );
+
             if( includeBounds )
             {
                 return ((compare.less_than_or_equal( get<1>( A ), get<1>( C ) ) && compare.less_than_or_equal( get<1>( C ), get<1>( B ) )) ||
-- 
2.43.0


From 24c7436a0fa8eb9fcea3f411d1253b840ee9cac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:59 +0000
Subject: [PATCH 12/60] fix: bounding_box_intersection names the point's
 arithmetic type

---
 geometrix/algorithm/bounding_box_intersection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/bounding_box_intersection.hpp b/geometrix/algorithm/bounding_box_intersection.hpp
index 486326b..4b9d62b 100644
--- a/geometrix/algorithm/bounding_box_intersection.hpp
+++ b/geometrix/algorithm/bounding_box_intersection.hpp
@@ -22,7 +22,7 @@ namespace geometrix {
     template <typename NumberComparisonPolicy, typename Point>
     inline bool bounding_box_intersection( const Point& p1, const Point& p2, const Point& p3, const Point& p4, const NumberComparisonPolicy& compare ) 
     {
-        typedef typename geometric_traits<Point>::coordinate_type coordinate_type;
+        typedef typename geometric_traits<Point>::arithmetic_type coordinate_type;
         BOOST_CONCEPT_ASSERT((Point2DConcept<Point>));
 
         coordinate_type xmax1, xmax2, ymax1, ymax2, xmin1, xmin2, ymin1, ymin2;
-- 
2.43.0


From c70505e8a39d0bf97ae6e8fb9b665295af558662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:59 +0000
Subject: [PATCH 13/60] fix: ray_line_intersection treats the line as unbounded
 and tells parallel from coincident

---
 geometrix/algorithm/intersection/ray_line_intersection.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/geometrix/algorithm/intersection/ray_line_intersection.hpp b/geometrix/algorithm/intersection/ray_line_intersection.hpp
index 27364f8..5f29b9f 100644
--- a/geometrix/algorithm/intersection/ray_line_intersection.hpp
+++ b/geometrix/algorithm/intersection/ray_line_intersection.hpp
@@ -82,7 +82,7 @@ namespace geometrix {
         //If denom is zero then ray and line are parallel.
         if( cmp.equals( denom, constants::zero<length_t>() ) )
         {
-            if (get_orientation(v, v2, cmp) != oriented_collinear)
+            if (get_orientation(v, v1, cmp) != oriented_collinear)
             return false;
 
             return ray_line_intersection_result(true,true);
@@ -92,10 +92,6 @@ namespace geometrix {
         if (cmp.less_than(t, constants::zero<Length>()))
         return false;
         
-        auto t2 = scalar_projection(v1, v3) / denom;
-        if (cmp.less_than(t2, constants::zero<decltype(t2)>()))
-        return false;
-
         assign(xPoint, O + t * v);
 
         return true;
-- 
2.43.0


From ca5cb81f64435827df349a9093f20cf792f32882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:59 +0000
Subject: [PATCH 14/60] fix: ray_segment_intersection without outputs rejects
 parallel segments beside the ray

---
 geometrix/algorithm/intersection/ray_segment_intersection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/intersection/ray_segment_intersection.hpp b/geometrix/algorithm/intersection/ray_segment_intersection.hpp
index 259b0b2..7e823df 100644
--- a/geometrix/algorithm/intersection/ray_segment_intersection.hpp
+++ b/geometrix/algorithm/intersection/ray_segment_intersection.hpp
@@ -150,7 +150,7 @@ inline intersection_type ray_segment_intersection(const Point& O, const UnitVect
     //If denom is zero then ray and segment are parallel.
     if (cmp.equals(denom, constants::zero<decltype(denom)>()))
     {
-        if (get_orientation(v, v2, cmp) != oriented_collinear)
+        if (get_orientation(A, B, O, cmp) != oriented_collinear)
             return e_non_crossing;
 
         vector_t vOB = B - O;
-- 
2.43.0


From 74dc0854460c13f2ee7479f873c33ef9b063507d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:59 +0000
Subject: [PATCH 15/60] fix: 3D segment_segment_intersection keeps the end
 point classification of the first segment

---
 .../algorithm/intersection/segment_segment_intersection.hpp   | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/geometrix/algorithm/intersection/segment_segment_intersection.hpp b/geometrix/algorithm/intersection/segment_segment_intersection.hpp
index 742835b..e731a2e 100644
--- a/geometrix/algorithm/intersection/segment_segment_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_segment_intersection.hpp
@@ -252,9 +252,7 @@ namespace geometrix {
         
                 if( cmp.less_than( t, zero ) || cmp.greater_than( t, one ) )
                     return e_non_crossing;                
-                else if( cmp.greater_than( t, zero ) && cmp.less_than( t, one ) )
-                    iType = e_crossing;
-                else
+                else if( !(cmp.greater_than( t, zero ) && cmp.less_than( t, one )) )
                     iType = e_endpoint;
         
                 iPoint[0] <<= p1 + s * v1;
-- 
2.43.0


From a2cb4a46711dbf245f64d45c6fbe1a0759917c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:09 +0000
Subject: [PATCH 16/60] fix: 3D point_in_triangle compiles and rejects points
 beyond an edge on its line

---
 geometrix/algorithm/point_in_polygon.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/geometrix/algorithm/point_in_polygon.hpp b/geometrix/algorithm/point_in_polygon.hpp
index 76889d3..a4c50a4 100644
--- a/geometrix/algorithm/point_in_polygon.hpp
+++ b/geometrix/algorithm/point_in_polygon.hpp
@@ -201,6 +201,7 @@ namespace geometrix {
         inline bool point_in_triangle( const Point1& p, const Point2& A, const Point3& B, const Point4& C, const NumberComparisonPolicy& cmp, dimension<3> )
         {
             typedef typename select_arithmetic_type_from_sequences<Point1, Point2>::type arithmetic_type;
+            using area_type = decltype(arithmetic_type() * arithmetic_type());
 
             // Translate point and triangle so that point lies at origin
             vector<arithmetic_type, 3> a = A - p;
@@ -208,20 +209,24 @@ namespace geometrix {
             vector<arithmetic_type, 3> c = C - p;
 
             // Compute normal vectors for triangles pab and pbc
-            auto u = cross_product( b, c );
-            auto v = cross_product( c, a );
+            vector<area_type, 3> u = b ^ c;
+            vector<area_type, 3> v = c ^ a;
 
             // Make sure they are both pointing in the same direction
             if( cmp.less_than(dot_product(u, v), constants::zero<decltype(dot_product(u,v))>() ) )
                 return false;
 
             // Compute normal vector for triangle pca
-            auto w = cross_product(a, b);
+            vector<area_type, 3> w = a ^ b;
 
             // Make sure it points in the same direction as the first two
             if( cmp.less_than(dot_product(u, w), constants::zero<decltype(dot_product(u,w))>() ) )
                 return false;
 
+            // The first normal vanishes when p is on the line BC, so compare the other two as well
+            if( cmp.less_than(dot_product(v, w), constants::zero<decltype(dot_product(v,w))>() ) )
+                return false;
+
             // Otherwise P must be in (or on) the triangle
             return true;
         }
-- 
2.43.0


From ab07438342e42350be24cb91226dd566dd0e2ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:41 +0000
Subject: [PATCH 17/60] fix: plane builds its normal with the cross product
 operator so that it compiles

---
 geometrix/primitive/plane.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometrix/primitive/plane.hpp b/geometrix/primitive/plane.hpp
index 3381c57..803b0f3 100644
--- a/geometrix/primitive/plane.hpp
+++ b/geometrix/primitive/plane.hpp
@@ -37,7 +37,7 @@ public:
         : m_a( a )
         , m_u( normalize(u) )
         , m_v( normalize(v) )
-        , m_n( normalize( cross_product( m_u, m_v ) ) )
+        , m_n( normalize( m_u ^ m_v ) )
         , m_d( scalar_projection( as_vector(m_a), m_n ) )
     {}
 
@@ -45,7 +45,7 @@ public:
         : m_a( a )
         , m_u( normalize(b-a) )
         , m_v( normalize(c-a) )
-        , m_n( normalize( cross_product( m_u, m_v ) ) )
+        , m_n( normalize( m_u ^ m_v ) )
         , m_d( scalar_projection( as_vector(m_a), m_n ) )
     {}
 
-- 
2.43.0


From 4542ad29c91474bfd5194d766fda8529993011b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:06 +0000
Subject: [PATCH 18/60] fix: segment_sphere_intersection reports the point for
 a zero-length segment

---
 geometrix/algorithm/intersection/segment_sphere_intersection.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geometrix/algorithm/intersection/segment_sphere_intersection.hpp b/geometrix/algorithm/intersection/segment_sphere_intersection.hpp
index 1fc54c8..08ba8db 100644
--- a/geometrix/algorithm/intersection/segment_sphere_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_sphere_intersection.hpp
@@ -94,6 +94,7 @@ namespace geometrix {
         if (cmp.equals(length, 0))
         {
             t = 0;
+            assign(q, sa);
             return cmp.less_than_or_equal(c, 0);
         }
 
-- 
2.43.0


From 26d1467f72f794b59ee7778699ff96dc67d9bd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:14 +0000
Subject: [PATCH 19/60] fix: polygon_with_holes add_hole/set_outer leave an
 lvalue argument intact

---
 geometrix/primitive/polygon_with_holes.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometrix/primitive/polygon_with_holes.hpp b/geometrix/primitive/polygon_with_holes.hpp
index a69bb53..4c75387 100644
--- a/geometrix/primitive/polygon_with_holes.hpp
+++ b/geometrix/primitive/polygon_with_holes.hpp
@@ -94,7 +94,7 @@ namespace geometrix {
         template <typename OuterPolygon>
         void set_outer(OuterPolygon&& outer)
         {
-            m_outer = std::move(outer);
+            m_outer = std::forward<OuterPolygon>(outer);
         }
 
         template <typename OuterPolygon>
@@ -116,7 +116,7 @@ namespace geometrix {
         template <typename HolePolygon>
         void add_hole(HolePolygon&& outer)
         {
-            m_holes.emplace_back(std::move(outer));
+            m_holes.emplace_back(std::forward<HolePolygon>(outer));
         }
 
         template <typename HolePolygon>
-- 
2.43.0


From f8028014eadfd4e569d6c5846c50c178f362cba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:14 +0000
Subject: [PATCH 20/60] fix: Ramer-Douglas-Peucker recursion includes the split
 vertex in the first half

---
 .../point_sequence/ramer_douglas_peucker_algorithm.hpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp b/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp
index d21f22f..3c05e95 100644
--- a/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp
+++ b/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp
@@ -51,7 +51,7 @@ namespace geometrix {
 			// If max distance is greater than epsilon, recursively simplify
 			if (dmax > epsilon)
 			{
-				ramer_douglas_peucker_algorithm(poly, nPoly, start, index, epsilon);
+				ramer_douglas_peucker_algorithm(poly, nPoly, start, index + 1, epsilon);
 				access::pop_back(nPoly);
 				ramer_douglas_peucker_algorithm(poly, nPoly, index, end, epsilon);
 			}
-- 
2.43.0


From ed8f5fe91f62d7f75a8176acce922f85f030e46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:14 +0000
Subject: [PATCH 21/60] fix: polyline_split at or beyond the end keeps the last
 vertex

---
 geometrix/algorithm/point_sequence/polyline_split.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geometrix/algorithm/point_sequence/polyline_split.hpp b/geometrix/algorithm/point_sequence/polyline_split.hpp
index 4932c1c..a2d8d15 100644
--- a/geometrix/algorithm/point_sequence/polyline_split.hpp
+++ b/geometrix/algorithm/point_sequence/polyline_split.hpp
@@ -113,6 +113,10 @@ namespace geometrix {
             }
         }
 
+		//! The position is at or beyond the end: the first part is the whole polyline.
+		if (j == size)
+			a.push_back(access::get_point(poly, i));
+
 		polyline_t b = { a.back() };
         for (; j < size; ++j)
             b.push_back(access::get_point(poly, j));
-- 
2.43.0


From f02b133820ab4010932a826306095751f9db7a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:47 +0000
Subject: [PATCH 22/60] fix: triangle can be instantiated and is built from
 three vertices

---
 geometrix/primitive/triangle.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/geometrix/primitive/triangle.hpp b/geometrix/primitive/triangle.hpp
index 18b32eb..8e87a57 100644
--- a/geometrix/primitive/triangle.hpp
+++ b/geometrix/primitive/triangle.hpp
@@ -30,16 +30,14 @@ public:
         : std::array<Point, 3>(a)
     {}
 
-    template <typename Point1, typename Point2, typename Point3, typename Point4>
-    triangle(const Point1& p1, const Point2& p2, const Point3& p3, const Point4& p4)
-        : triangle(array_type{ {construct<Point>(p1), construct<Point>(p2), construct<Point>(p3), construct<Point>(p4)} })
+    template <typename Point1, typename Point2, typename Point3>
+    triangle(const Point1& p1, const Point2& p2, const Point3& p3)
+        : triangle(array_type{ {construct<Point>(p1), construct<Point>(p2), construct<Point>(p3)} })
     {}
 
     typedef Point                                                  point_type;
     typedef typename dimension_of< point_type >::type              dimension_type;
     typedef typename geometric_traits<point_type>::arithmetic_type arithmetic_type;
-
-    static_assert(sizeof(triangle<Point>) == 3 * sizeof(Point), "Triangle should be the size of 3 points.");
 };
 
 template <typename Point>
-- 
2.43.0


From 627c3c34a043a6067e4a8284c8d8622532d4565e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:47 +0000
Subject: [PATCH 23/60] fix: member function access policy writes through the
 proxy's setter

---
 geometrix/tensor/fusion_vector_access_policy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/tensor/fusion_vector_access_policy.hpp b/geometrix/tensor/fusion_vector_access_policy.hpp
index 977057e..a726347 100644
--- a/geometrix/tensor/fusion_vector_access_policy.hpp
+++ b/geometrix/tensor/fusion_vector_access_policy.hpp
@@ -69,7 +69,7 @@ struct fusion_vector_member_function_access_policy
     {
         typedef typename remove_const_ref<T>::type tensor_type;
         BOOST_CONCEPT_ASSERT((DimensionContainsIndexConcept<boost::fusion::result_of::size<tensor_type>,Index>));
-        boost::fusion::at_c<Index>( collection ) = v;
+        boost::fusion::at_c<Index>( collection ).set( v );
     }
 };
 
-- 
2.43.0


From cc38db5054240392f157d32d0c1281cf3633a2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:54 +0000
Subject: [PATCH 24/60] fix: fixed_point converts to floating point without
 truncating to an integer

---
 geometrix/numeric/fixed_point_traits.hpp | 25 ++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/geometrix/numeric/fixed_point_traits.hpp b/geometrix/numeric/fixed_point_traits.hpp
index 52f30ab..c64d93a 100644
--- a/geometrix/numeric/fixed_point_traits.hpp
+++ b/geometrix/numeric/fixed_point_traits.hpp
@@ -33,6 +33,15 @@
 
 namespace geometrix {
 
+    namespace detail {
+        //! Widen the scaled value for division by the scale; when scaling down to a floating point type the division must not truncate.
+        template <typename T, typename B>
+        BOOST_CONSTEXPR inline typename std::conditional<std::is_floating_point<T>::value, std::common_type<T, typename widen<B>::type>, widen<B>>::type::type scale_dividend( B v )
+        {
+            return widen_cast( v );
+        }
+    }//namespace detail;
+
     template <int Radix, int Exp>
     struct generic_compile_time_scale_policy
     {
@@ -52,7 +61,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR T scale_down( B v ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / power_c<Radix, Exp>::value );
+            return boost::numeric_cast<T>( detail::scale_dividend<T>( v ) / power_c<Radix, Exp>::value );
         }
 
         //! Scale from T to B by a factor of Radix^scale.
@@ -66,7 +75,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR T scale_down( B v, int ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / integral_pow( Radix, Exp ) );
+            return boost::numeric_cast<T>( detail::scale_dividend<T>( v ) / integral_pow( Radix, Exp ) );
         }
     };
 
@@ -92,7 +101,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR T scale_down( B v ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / integral_pow( Radix, m_scale ) );
+            return boost::numeric_cast<T>( detail::scale_dividend<T>( v ) / integral_pow( Radix, m_scale ) );
         }
 
         //! Scale from T to B by a factor of Radix^scale.
@@ -106,7 +115,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR T scale_down( B v, int Exp ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / integral_pow( Radix, Exp ) );
+            return boost::numeric_cast<T>( detail::scale_dividend<T>( v ) / integral_pow( Radix, Exp ) );
         }
 
         int m_scale;
@@ -142,7 +151,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR typename boost::enable_if< boost::is_float<T>, T >::type scale_down( B v ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / power_c<2, Exp>::value );
+            return boost::numeric_cast<T>( detail::scale_dividend<T>( v ) / power_c<2, Exp>::value );
         }
 
         //! Scale from T to B by a factor of Radix^scale.
@@ -168,7 +177,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR typename boost::enable_if< boost::is_float<T>, T >::type scale_down( B v, int) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / power_c<2, Exp>::value );
+            return boost::numeric_cast<T>( detail::scale_dividend<T>( v ) / power_c<2, Exp>::value );
         }
     };
 
@@ -205,7 +214,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR typename boost::enable_if< boost::is_float<T>, T >::type scale_down( B v ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / m_scale );
+            return boost::numeric_cast<T>( detail::scale_dividend<T>( v ) / integral_pow(2, m_scale) );
         }
 
         //! Scale from T to B by a factor of Radix^scale.
@@ -232,7 +241,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR typename boost::enable_if< boost::is_float<T>, T >::type scale_down( B v, int Exp ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / Exp );
+            return boost::numeric_cast<T>( detail::scale_dividend<T>( v ) / integral_pow(2, Exp) );
         }
 
         int m_scale;
-- 
2.43.0


From a0036f20169d53e899e966a87d400f247ba6ae24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 25/60] fix: fast voxel traversal reaches the end cell when the
 segment ends on a cell corner

---
 geometrix/algorithm/fast_voxel_grid_traversal.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/fast_voxel_grid_traversal.hpp b/geometrix/algorithm/fast_voxel_grid_traversal.hpp
index 0681423..bbb7cd2 100644
--- a/geometrix/algorithm/fast_voxel_grid_traversal.hpp
+++ b/geometrix/algorithm/fast_voxel_grid_traversal.hpp
@@ -144,7 +144,8 @@ namespace geometrix
         
         while(true)
         {
-			if( tmax.template get<0>() < tmax.template get<1>() )
+			//! Once the end column (row) is reached only the row (column) can still change.
+			if( j == j_end || ( i != i_end && tmax.template get<0>() < tmax.template get<1>() ) )
             {
                 i += stepI;
                 if (i == static_cast<std::uint32_t>(outI))
@@ -291,7 +292,8 @@ namespace geometrix
         
         while(true)
         {
-			if( tmax.template get<0>() < tmax.template get<1>() )
+			//! Once the end column (row) is reached only the row (column) can still change.
+			if( j == j_end || ( i != i_end && tmax.template get<0>() < tmax.template get<1>() ) )
             {
                 i += stepI;
                 if (i == static_cast<std::uint32_t>(outI))
-- 
2.43.0


From 32ccce51f17581d0b703174b32a83c1154a3ef58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 26/60] fix: bresenham_segment_traversal compiles

---
 geometrix/algorithm/bresenham_grid_traversal.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/geometrix/algorithm/bresenham_grid_traversal.hpp b/geometrix/algorithm/bresenham_grid_traversal.hpp
index 3c8366a..6f7b20b 100644
--- a/geometrix/algorithm/bresenham_grid_traversal.hpp
+++ b/geometrix/algorithm/bresenham_grid_traversal.hpp
@@ -10,6 +10,7 @@
 #define GEOMETRIX_BRESENHAM_SEGMENT_TRAVERSAL_HPP
 #pragma once
 
+#include <cstdlib>
 #include <geometrix/primitive/segment_traits.hpp>
 #include <geometrix/arithmetic/arithmetic.hpp>
 
@@ -38,7 +39,7 @@ namespace geometrix
         }
         else if (dy == 0) // have a horizontal line
         {
-            xsign = dx / math::abs(dx);
+            xsign = dx / std::abs(dx);
 
             visitor(bx, by);
             while (bx != x2)
@@ -49,7 +50,7 @@ namespace geometrix
         }
         else if (dx == 0) // have vertical line
         {
-            ysign = dy / math::abs(dy);
+            ysign = dy / std::abs(dy);
             visitor(bx, by);
             while (by != y2)
             {
@@ -59,10 +60,10 @@ namespace geometrix
         }
         else // use Bresenham algorithm
         {
-            xsign = dx / math::abs(dx);
-            ysign = dy / math::abs(dy);
-            dx = math::abs(dx);
-            dy = math::abs(dy);
+            xsign = dx / std::abs(dx);
+            ysign = dy / std::abs(dy);
+            dx = std::abs(dx);
+            dy = std::abs(dy);
             // set initial point on line
             visitor(bx, by);
 
-- 
2.43.0


From b9890e3888cd6a7d3b77ccd381b57b85e50bb97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 27/60] fix: orientation traversal walks down a column when the
 segment descends within it

---
 geometrix/algorithm/orientation_grid_traversal.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/orientation_grid_traversal.hpp b/geometrix/algorithm/orientation_grid_traversal.hpp
index ac34cdc..c7dbd62 100644
--- a/geometrix/algorithm/orientation_grid_traversal.hpp
+++ b/geometrix/algorithm/orientation_grid_traversal.hpp
@@ -84,7 +84,7 @@ namespace geometrix
 
             while (j != j_end)
             {
-                ++j;
+                j += signDeltaY;
                 visitor(i, j);
             }
             return;
-- 
2.43.0


From e8cccdc92730e2e18cdd7c7236653c9778129354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:52 +0000
Subject: [PATCH 28/60] fix: extreme vertex search in separating axis tests
 missed the maximum on some polygons

---
 .../detail/separating_axis_common.hpp         | 36 ++++---------------
 1 file changed, 6 insertions(+), 30 deletions(-)

diff --git a/geometrix/algorithm/intersection/detail/separating_axis_common.hpp b/geometrix/algorithm/intersection/detail/separating_axis_common.hpp
index d32c109..fcb59ec 100644
--- a/geometrix/algorithm/intersection/detail/separating_axis_common.hpp
+++ b/geometrix/algorithm/intersection/detail/separating_axis_common.hpp
@@ -21,14 +21,6 @@ namespace geometrix {
 	
 	namespace detail_separating_axis {
 
-		inline std::size_t get_middle_index(std::size_t i0, std::size_t i1, std::size_t n)
-		{
-			if(i0 < i1)
-				return (i0 + i1) / 2;
-			else
-				return ((i0 + i1 + n) / 2) % n;
-		}
-
 		template <typename Polygon, typename Vector, typename NumberComparisonPolicy>
 		inline std::size_t get_extreme_index(const Polygon& c, const Vector& d, const NumberComparisonPolicy& cmp)
 		{
@@ -37,32 +29,16 @@ namespace geometrix {
 			using length_t = typename arithmetic_type_of<point_type>::type;
 			using vector_t = vector<length_t, dimension_of<point_type>::value>;
 
-			std::size_t i0 = 0;
-			std::size_t i1 = 0;
-			while(true)
+			std::size_t extreme = 0;
+			for(std::size_t i = 1; i < access::size(c); ++i)
 			{
-				std::size_t mid = get_middle_index(i0, i1, access::size(c));
-				std::size_t next = (mid + 1) % access::size(c);
-				vector_t e = access::get_point(c, next) - access::get_point(c, mid);
+				vector_t e = access::get_point(c, i) - access::get_point(c, extreme);
 				auto de = dot_product(d, e);
 				if(cmp.greater_than(de, constants::zero<decltype(de)>()))
-				{
-					if(mid != i0)
-						i0 = mid;
-					else
-						return i1;
-				}
-				else
-				{
-					std::size_t prev = (mid + access::size(c) - 1) % access::size(c);
-					e = access::get_point(c, mid) - access::get_point(c, prev);
-					de = dot_product(d, e);
-					if(cmp.less_than(de, constants::zero<decltype(de)>()))
-						i1 = mid;
-					else
-						return mid;
-				}
+					extreme = i;
 			}
+
+			return extreme;
 		}
 
 		template <typename Polygon, typename Vector, typename Length, typename NumberComparisonPolicy>
-- 
2.43.0


From 35117409e6d16e91d251937237980627b1cc28ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 29/60] fix: separating axis test of convex polygons uses the
 outward edge normals

---
 .../intersection/separating_axis_convex_polygons.hpp      | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp b/geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp
index 3bee8fc..fca2d78 100644
--- a/geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp
+++ b/geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp
@@ -25,21 +25,21 @@ namespace geometrix {
 
 		for(std::size_t i0 = 0, i1 = access1::size(p1) - 1; i0 < access1::size(p1); i1 = i0, ++i0)
 		{
-			auto d = left_normal<vector_t>(access1::get_point(p1, i0) - access1::get_point(p1, i1));
+			auto d = right_normal<vector_t>(access1::get_point(p1, i0) - access1::get_point(p1, i1));
 			std::size_t min = get_extreme_index(p2, -d, cmp);
 			vector_t diff = access2::get_point(p2, min) - access1::get_point(p1, i0);
 			auto dd = dot_product(d, diff);
-			if(cmp.greater_than(dd, constants::zero<decltype(dd)>()))
+			if(cmp.greater_than_or_equal(dd, constants::zero<decltype(dd)>()))
 				return false;
 		}
 
 		for(std::size_t i0 = 0, i1 = access2::size(p2) - 1; i0 < access2::size(p2); i1 = i0, ++i0)
 		{
-			auto d = left_normal<vector_t>(access2::get_point(p2, i0) - access2::get_point(p2, i1));
+			auto d = right_normal<vector_t>(access2::get_point(p2, i0) - access2::get_point(p2, i1));
 			std::size_t min = get_extreme_index(p1, -d, cmp);
 			vector_t diff = access1::get_point(p1, min) - access2::get_point(p2, i0);
 			auto dd = dot_product(d, diff);
-			if(cmp.greater_than(dd, constants::zero<decltype(dd)>()))
+			if(cmp.greater_than_or_equal(dd, constants::zero<decltype(dd)>()))
 				return false;
 		}
 
-- 
2.43.0


From 318e49c8554cb76bdab77c0bdc1868731020368f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:17 +0000
Subject: [PATCH 30/60] fix: moving sphere against a box classifies a start
 inside the grown box by its start point

---
 .../intersection/moving_sphere_aabb_intersection.hpp       | 7 ++++++-
 .../intersection/moving_sphere_obb_intersection.hpp        | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp b/geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp
index 48f1905..1229c55 100644
--- a/geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp
+++ b/geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp
@@ -82,9 +82,14 @@ namespace geometrix {
         // Intersect ray against expanded AABB e. Exit with no intersection if ray 
         // misses e, else get intersection point p and time t as result
         Point p;
-        if (!ray_aabb_intersection(get_center(s), velocity, e, t, p, cmp))
+        auto entry = ray_aabb_intersection(get_center(s), velocity, e, t, p, cmp);
+        if (!entry)
             return moving_sphere_aabb_intersection_result();
 
+        // When starting inside e the ray test reports the exit point. The contact is classified by the start.
+        if (entry.is_origin_inside())
+            assign(p, get_center(s));
+
         // Compute which min and max faces of a the intersection point p lies
         // outside of. Note, u and v cannot have the same bits set and 
         // they must have at least one bit set among them 
diff --git a/geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp b/geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp
index 8e9805d..34455a2 100644
--- a/geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp
+++ b/geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp
@@ -94,9 +94,14 @@ namespace geometrix {
         // Intersect ray against expanded AABB e. Exit with no intersection if ray
         // misses e, else get intersection point p and time t as result
         Point p;
-        if (!ray_aabb_intersection(get_center(rs), rvelocity, e, t, p, cmp))
+        auto entry = ray_aabb_intersection(get_center(rs), rvelocity, e, t, p, cmp);
+        if (!entry)
             return moving_sphere_obb_intersection_result();
 
+        // When starting inside e the ray test reports the exit point. The contact is classified by the start.
+        if (entry.is_origin_inside())
+            assign(p, get_center(rs));
+
         // Compute which min and max faces of a the intersection point p lies
         // outside of. Note, u and v cannot have the same bits set and
         // they must have at least one bit set among them
-- 
2.43.0


From 13178b5f6f8df29639838051787fc0d5fb60fefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 31/60] fix: moving sphere starting inside a box reports its
 center as the contact point

---
 .../intersection/moving_sphere_aabb_intersection.hpp       | 7 +++++++
 .../intersection/moving_sphere_obb_intersection.hpp        | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp b/geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp
index 1229c55..2f6738a 100644
--- a/geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp
+++ b/geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp
@@ -107,6 +107,13 @@ namespace geometrix {
             return construct<Point>((n & 1) ? get<0>(a.get_upper_bound()) : get<0>(a.get_lower_bound()), (n & 2) ? get<1>(a.get_upper_bound()) : get<1>(a.get_lower_bound()));
         };
                 
+        // If no bits are set the center starts inside the box
+        if (m == 0)
+        {
+            assign(q, get_center(s));
+            return moving_sphere_aabb_intersection_result(true, false, false, true, false);
+        }
+
         // If 2 bits set (m == 3) then p is in a vertex region
         if (m == 3)
         { 
diff --git a/geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp b/geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp
index 34455a2..5b16cfb 100644
--- a/geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp
+++ b/geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp
@@ -119,6 +119,13 @@ namespace geometrix {
             return (n & 1) ? (n & 2) ? ur : lr : (n & 2) ? ul : ll;
         };
 
+        // If no bits are set the center starts inside the box
+        if (m == 0)
+        {
+            assign(q, get_center(s));
+            return moving_sphere_obb_intersection_result(true, false, false, true, false);
+        }
+
         // If 2 bits set (m == 3) then p is in a vertex region
         if (m == 3)
         {
-- 
2.43.0


From edc86d64ad29b1b80bd402b82ecfb0783341b0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:58 +0000
Subject: [PATCH 32/60] fix: polyline_polyline_intersect stops only when the
 visitor asks it to

---
 .../intersection/polyline_polyline_intersection.hpp         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geometrix/algorithm/intersection/polyline_polyline_intersection.hpp b/geometrix/algorithm/intersection/polyline_polyline_intersection.hpp
index 3a3e344..3ed52b2 100644
--- a/geometrix/algorithm/intersection/polyline_polyline_intersection.hpp
+++ b/geometrix/algorithm/intersection/polyline_polyline_intersection.hpp
@@ -36,7 +36,7 @@ inline bool polyline_polyline_intersect( const Polyline1& A, const Polyline2& B,
 	using length_t = typename select_arithmetic_type_from_sequences<typename access1::point_type, typename access2::point_type>::type;
 	using point_type = point<length_t, 2>;
 	
-	bool intersected = false;
+	bool intersected = false, stop = false;
 	for (std::size_t i1 = 0, j1 = 1; j1 < access1::size(A); i1 = j1++)
 	{
 		auto iVisitor = [&](intersection_type iType, std::size_t i, std::size_t j, const point_type& x1, const point_type& x2) -> bool
@@ -46,10 +46,10 @@ inline bool polyline_polyline_intersect( const Polyline1& A, const Polyline2& B,
 			
 			intersected = true;
 	
-			return visitor(iType, i1, j1, i, j, x1, x2);
+			return stop = visitor(iType, i1, j1, i, j, x1, x2);
 		};
 
-		bool stop = segment_polyline_intersect(access1::get_point(A, i1), access1::get_point(A, j1), B, iVisitor, cmp);
+		segment_polyline_intersect(access1::get_point(A, i1), access1::get_point(A, j1), B, iVisitor, cmp);
 		if (stop)
 			return intersected;
 	}
-- 
2.43.0


From c0e18eedcbed5fb9e9a0f3a6e608f87563ca97a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:12 +0000
Subject: [PATCH 33/60] fix: a segment between the backward extensions of a
 range's ends is outside the range

---
 geometrix/algorithm/is_segment_in_range.hpp | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/geometrix/algorithm/is_segment_in_range.hpp b/geometrix/algorithm/is_segment_in_range.hpp
index e01b34b..a4cfab4 100644
--- a/geometrix/algorithm/is_segment_in_range.hpp
+++ b/geometrix/algorithm/is_segment_in_range.hpp
@@ -72,14 +72,6 @@ namespace geometrix {
 */
 
 		direct_comparison_policy directCmp;
-		//! Special case where both segment endpoints lay on a range vector.
-		//! In that case the segment either is inside the range or outside.
-		if( detHiSegStart == constants::zero<area_t>() && detLoSegEnd == constants::zero<area_t>())
-			return get_orientation( get_start(segment), get_end(segment), origin, directCmp) != oriented_left;
-		
-		if( detHiSegEnd == constants::zero<area_t>() && detLoSegStart == constants::zero<area_t>())
-			return get_orientation( get_start(segment), get_end(segment), origin, directCmp) != oriented_right;
-		
 		//! Test the intersections		
 		return ray_segment_intersection(origin, normalize(lo), segment, directCmp) != e_non_crossing || ray_segment_intersection(origin, normalize(hi), segment, directCmp) != e_non_crossing;
 	}
-- 
2.43.0


From 837c40b78516d86cac5e0e8dba25f7c2ed22021e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:12 +0000
Subject: [PATCH 34/60] fix: point_polyline_orientation uses the first piece
 for points behind the first point

---
 .../algorithm/point_sequence/point_polyline_orientation.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/point_sequence/point_polyline_orientation.hpp b/geometrix/algorithm/point_sequence/point_polyline_orientation.hpp
index 34c38f2..21cbcce 100644
--- a/geometrix/algorithm/point_sequence/point_polyline_orientation.hpp
+++ b/geometrix/algorithm/point_sequence/point_polyline_orientation.hpp
@@ -46,7 +46,7 @@ namespace geometrix {
 			point_segment_closest_point_and_param(p, pi, pj, t);
 			if (t > constants::zero<dimensionless_t>() && t < constants::one<dimensionless_t>())
 				return get_orientation(pi, pj, p, cmp);
-			else if (cmp.equals(t, constants::zero<dimensionless_t>()))
+			else if (cmp.less_than_or_equal(t, constants::zero<dimensionless_t>()))
 			{
 				//! Closest point is a vertex i.
 				if (segIndex != 0)
-- 
2.43.0


From f7faa6437e5b739dae4c9ec58147cdb6e512305a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:12 +0000
Subject: [PATCH 35/60] fix: pieces of a chain that meet straight on do not
 overlap

---
 geometrix/algorithm/point_sequence/self_intersection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/point_sequence/self_intersection.hpp b/geometrix/algorithm/point_sequence/self_intersection.hpp
index b664591..242d59d 100644
--- a/geometrix/algorithm/point_sequence/self_intersection.hpp
+++ b/geometrix/algorithm/point_sequence/self_intersection.hpp
@@ -40,7 +40,7 @@ namespace geometrix {
 		{
 			for (std::size_t j = i + 1; (j + 1) < size; ++j)
 			{
-				if (is_intersecting(i, j) && (!adjacent(i, j) || iType == e_overlapping))
+				if (is_intersecting(i, j) && (!adjacent(i, j) || (iType == e_overlapping && !numeric_sequence_equals(xPoints[0], xPoints[1], cmp))))
 				{
 					isIntersecting = true;
 					visit(i, j, iType, xPoints[0], xPoints[1]);
-- 
2.43.0


From 3c27e47d5cb7d824007cb49d43d84341c4a5c1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:12 +0000
Subject: [PATCH 36/60] fix: polygon_polyline_containment reads the polygon
 through its own traits

---
 .../algorithm/point_sequence/polygon_polyline_containment.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/point_sequence/polygon_polyline_containment.hpp b/geometrix/algorithm/point_sequence/polygon_polyline_containment.hpp
index 69257aa..6c3653b 100644
--- a/geometrix/algorithm/point_sequence/polygon_polyline_containment.hpp
+++ b/geometrix/algorithm/point_sequence/polygon_polyline_containment.hpp
@@ -57,7 +57,7 @@ namespace geometrix {
 			std::size_t jnext = (j + 1) % size2;
 			GEOMETRIX_ASSERT(inext < size1);
 			point_type xpoint[2];
-			auto itype = segment_segment_intersection( access1::get_point( pline, i ), access1::get_point( pline, inext ), access1::get_point( pgon, j ), access1::get_point( pgon, jnext ), xpoint, cmp );
+			auto itype = segment_segment_intersection( access1::get_point( pline, i ), access1::get_point( pline, inext ), access2::get_point( pgon, j ), access2::get_point( pgon, jnext ), xpoint, cmp );
 			if (itype == e_non_crossing)
 				return false;
 			if (itype == e_crossing)
-- 
2.43.0


From 08bcffd27bd7b18e12f1b6bf13ba5db38d716c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:12 +0000
Subject: [PATCH 37/60] fix: identify_collinear_points_polygon reports the
 redundant vertex

---
 .../point_sequence/remove_collinear_points.hpp        | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/geometrix/algorithm/point_sequence/remove_collinear_points.hpp b/geometrix/algorithm/point_sequence/remove_collinear_points.hpp
index 9d06796..193d70f 100644
--- a/geometrix/algorithm/point_sequence/remove_collinear_points.hpp
+++ b/geometrix/algorithm/point_sequence/remove_collinear_points.hpp
@@ -28,6 +28,7 @@ namespace geometrix {
             return cPoints;
 
         Polygon newPoly{ poly.front(), access::get_point(poly, 1) };
+        std::size_t bIndex = 1;
         for (std::size_t i = 2; i < size; ++i)
         {
             const auto& a = access::get_point(newPoly, access::size(newPoly) - 2);
@@ -38,13 +39,17 @@ namespace geometrix {
                 if (i + 1 < size || !is_collinear(b, c, access::front(poly), cmp))
                 {
                     newPoly.push_back(c);
-                    continue;
+                    bIndex = i;
                 }
+                else
+                    cPoints.insert(i);
             }
             else
+            {
                 assign(b, c);//! replace b with c.      
-
-            cPoints.insert(i);
+                cPoints.insert(bIndex);
+                bIndex = i;
+            }
         }
 
         return cPoints;
-- 
2.43.0


From 397b75daa47d0e48b84128a5491c7265b13d58a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:12 +0000
Subject: [PATCH 38/60] fix: polyline_offset offsets straight vertices

---
 geometrix/algorithm/point_sequence/polyline_offset.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/point_sequence/polyline_offset.hpp b/geometrix/algorithm/point_sequence/polyline_offset.hpp
index 070a599..101fbef 100644
--- a/geometrix/algorithm/point_sequence/polyline_offset.hpp
+++ b/geometrix/algorithm/point_sequence/polyline_offset.hpp
@@ -326,8 +326,10 @@ namespace geometrix {
 					auto pOffsetD = construct<point_type>(D + vNormalCD);
 
 					point_type xPoint;
-					line_line_intersect(pOffsetA, pOffsetB, pOffsetC, pOffsetD, xPoint, cmp);
-					result.push_back(xPoint);
+					if (line_line_intersect(pOffsetA, pOffsetB, pOffsetC, pOffsetD, xPoint, cmp) == e_crossing)
+						result.push_back(xPoint);
+					else
+						result.push_back(pOffsetB);
 
 					A = C;
 					B = D;
-- 
2.43.0


From 687e24e4f3638c68b5bd62c9ee1727cc963027f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:12 +0000
Subject: [PATCH 39/60] fix: kd_tree::search checks stored points against the
 range

---
 geometrix/algorithm/kd_tree.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/geometrix/algorithm/kd_tree.hpp b/geometrix/algorithm/kd_tree.hpp
index 7d23cfe..9f4bd2a 100644
--- a/geometrix/algorithm/kd_tree.hpp
+++ b/geometrix/algorithm/kd_tree.hpp
@@ -66,10 +66,7 @@ namespace geometrix {
         template <typename T, typename Visitor, typename NumberComparisonPolicy>
         void search( const axis_aligned_bounding_box<T>& range, Visitor&& visitor, const NumberComparisonPolicy& compare ) const
         {
-            if( m_pLeaf )
-                visitor( *m_pLeaf );
-            else
-                search<0>( range, visitor, compare );
+            search<0>( range, visitor, compare );
         }
 
     private:
@@ -163,7 +160,9 @@ namespace geometrix {
         {
             if( m_pLeaf )
             {
-                visitor( *m_pLeaf );
+                //! The region of a leaf extends beyond its point.
+                if( range.intersects( *m_pLeaf, compare ) )
+                    visitor( *m_pLeaf );
                 return;
             }
 
-- 
2.43.0


From a9b6d6efa4c95f427b8864e7bab13ab4f1741810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:12 +0000
Subject: [PATCH 40/60] fix: solid_leaf_bsp_tree does not split twice by one
 plane

---
 geometrix/algorithm/solid_leaf_bsp_tree.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/geometrix/algorithm/solid_leaf_bsp_tree.hpp b/geometrix/algorithm/solid_leaf_bsp_tree.hpp
index d564fff..2eb9497 100644
--- a/geometrix/algorithm/solid_leaf_bsp_tree.hpp
+++ b/geometrix/algorithm/solid_leaf_bsp_tree.hpp
@@ -432,6 +432,7 @@ namespace geometrix {
             boost::dynamic_bitset<> frontBits, backBits;
             index_vector frontIndices, backIndices, coplanarIndices;
             std::size_t i = 0;
+            bool hasOpposing = false;
             auto add_to_front = [&i, &frontList, &frontBits, &usedBits, &frontIndices, &sIndices](const item_t& item) -> void {
                 frontList.push_back(item);
                 frontBits.push_back(usedBits[i]);
@@ -465,8 +466,12 @@ namespace geometrix {
                     auto planeNormal = plane_access::get_normal_vector(splitPlane);
                     auto dp = dot_product(smplxNormal, planeNormal);
                     GEOMETRIX_ASSERT(cmp.equals(dp, constants::one<decltype(dp)>()) || cmp.equals(dp, -constants::one<decltype(dp)>()));
+
+                    //! Splitting by the same plane again would leave a spurious solid leaf on it.
+                    usedBits.set(i);
                     if (dp < constants::zero<decltype(dp)>())
                     {
+                        hasOpposing = true;
                         add_to_back(item);
                         break;
                     }
@@ -495,7 +500,10 @@ namespace geometrix {
 
             //! Recursively build child subtrees and return new tree root combining them
             auto fNode = build_tree<node_orientation::front>(frontList, std::move(frontBits), std::move(frontIndices), selector, extract, cmp);
-            auto bNode = build_tree<node_orientation::back>(backList, std::move(backBits), std::move(backIndices), selector, extract, cmp);
+            //! If only opposing faces remain behind the plane, that side lies in front of them.
+            auto bNode = (hasOpposing && backBits.all())
+                ? build_tree<node_orientation::front>(backList, std::move(backBits), std::move(backIndices), selector, extract, cmp)
+                : build_tree<node_orientation::back>(backList, std::move(backBits), std::move(backIndices), selector, extract, cmp);
 
             return create_node(sIndex, /*std::move(coplanar),*/ std::move(coplanarIndices), fNode, bNode);
         }
-- 
2.43.0


From 89c295cbea0c3d9261782d1b7f34ba642b573083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:12 +0000
Subject: [PATCH 41/60] fix: ray from a point on a splitting plane of
 solid_leaf_bsp_tree follows its direction

---
 geometrix/algorithm/solid_leaf_bsp_tree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometrix/algorithm/solid_leaf_bsp_tree.hpp b/geometrix/algorithm/solid_leaf_bsp_tree.hpp
index 2eb9497..9923bb4 100644
--- a/geometrix/algorithm/solid_leaf_bsp_tree.hpp
+++ b/geometrix/algorithm/solid_leaf_bsp_tree.hpp
@@ -664,7 +664,8 @@ namespace geometrix {
                     auto denom = scalar_projection(d, get_normal_vector(node));
                     //! Compute distance from dividing plane to p.
                     auto dist = get_distance_to_origin(node) - scalar_projection(as_vector(p), get_normal_vector(node));
-                    auto nearIndex = dist > constants::zero<length_t>();
+                    //! From a point on the plane the ray leaves the side behind it, which it only touches.
+                    auto nearIndex = dist > constants::zero<length_t>() || (dist == constants::zero<length_t>() && denom > constants::zero<decltype(denom)>());
                     //! If denom is zero, ray runs parallel to plane. In this case,
                     //! just fall through to visit the near side (the one p lies on)
                     if (denom != constants::zero<decltype(denom)>())
-- 
2.43.0


From 8f9244bcd8164f7fd61c809acb63a867a7b97aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:12 +0000
Subject: [PATCH 42/60] fix: node_bsp_tree_2d locates vertices that touch a
 splitting line from behind

---
 geometrix/algorithm/node_bsp_tree_2d.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/geometrix/algorithm/node_bsp_tree_2d.hpp b/geometrix/algorithm/node_bsp_tree_2d.hpp
index 8726e01..d5cd56b 100644
--- a/geometrix/algorithm/node_bsp_tree_2d.hpp
+++ b/geometrix/algorithm/node_bsp_tree_2d.hpp
@@ -545,7 +545,13 @@ namespace geometrix {
 
             if( m_positiveChild != 0 )
             {
-                return m_positiveChild->locate_point( point, compare );
+                point_location_classification location = m_positiveChild->locate_point( point, compare );
+
+                ///A vertex of the edges behind the line can touch it at the point.
+                if( location != e_boundary && m_negativeChild != 0 && m_negativeChild->locate_point( point, compare ) == e_boundary )
+                    return e_boundary;
+
+                return location;
             }
             else if( m_negativeChild != 0 )
             {
-- 
2.43.0


From 8feecb5b41923160e1ec01ecda78e61e1622ad9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:12 +0000
Subject: [PATCH 43/60] fix: node_bsp_tree_2d::painters_traversal compiles

---
 geometrix/algorithm/node_bsp_tree_2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/node_bsp_tree_2d.hpp b/geometrix/algorithm/node_bsp_tree_2d.hpp
index d5cd56b..3ce4a9f 100644
--- a/geometrix/algorithm/node_bsp_tree_2d.hpp
+++ b/geometrix/algorithm/node_bsp_tree_2d.hpp
@@ -584,7 +584,7 @@ namespace geometrix {
     template <typename Point, typename Visitor, typename NumberComparisonPolicy>
     inline void node_bsp_tree_2d< Segment >::painters_traversal( const Point& point, Visitor&& visitor, const NumberComparisonPolicy& compare ) const
     {
-        BOOST_CONCEPT_ASSERT((VisitorConcept<Visitor,Segment>));
+        BOOST_CONCEPT_ASSERT((VisitorConcept<typename std::remove_reference<Visitor>::type,Segment>));
         typedef Segment segment_type;
 
         if( m_negativeChild == 0 && m_positiveChild == 0 )
-- 
2.43.0


From e843246e63110036fa11b0ec95bc37ee2330df08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:18 +0000
Subject: [PATCH 44/60] fix: copies of doubly_connected_edge_list keep the
 component graph

---
 geometrix/algorithm/doubly_connected_edge_list.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geometrix/algorithm/doubly_connected_edge_list.hpp b/geometrix/algorithm/doubly_connected_edge_list.hpp
index 37ce2f1..6550b54 100644
--- a/geometrix/algorithm/doubly_connected_edge_list.hpp
+++ b/geometrix/algorithm/doubly_connected_edge_list.hpp
@@ -79,6 +79,7 @@ namespace geometrix
 		doubly_connected_edge_list(const doubly_connected_edge_list& other)
 			: m_pointVertexMap(other.m_pointVertexMap)
 			, m_halfEdgeList(other.m_halfEdgeList)
+			, m_componentGraph(other.m_componentGraph)
 			, m_polygons(other.m_polygons)
 			, m_polylines(other.m_polylines)
 			, m_compare(other.m_compare)
@@ -87,6 +88,7 @@ namespace geometrix
 		doubly_connected_edge_list(doubly_connected_edge_list&& other)
 			: m_pointVertexMap(std::move(other.m_pointVertexMap))
 			, m_halfEdgeList(std::move(other.m_halfEdgeList))
+			, m_componentGraph(std::move(other.m_componentGraph))
 			, m_polygons(std::move(other.m_polygons))
 			, m_polylines(std::move(other.m_polylines))
 			, m_compare( other.m_compare)
@@ -226,6 +228,7 @@ namespace geometrix
 		{
 			m_pointVertexMap = std::move(other.m_pointVertexMap);
 			m_halfEdgeList = std::move(other.m_halfEdgeList);
+			m_componentGraph = std::move(other.m_componentGraph);
 			m_polygons = std::move(other.m_polygons);
 			m_polylines = std::move(other.m_polylines);
 			m_compare = other.m_compare;
@@ -236,6 +239,7 @@ namespace geometrix
 		{
 			m_pointVertexMap = other.m_pointVertexMap;
 			m_halfEdgeList = other.m_halfEdgeList;
+			m_componentGraph = other.m_componentGraph;
 			m_polygons = other.m_polygons;
 			m_polylines = other.m_polylines;
 			m_compare = other.m_compare;
-- 
2.43.0


From f1260a9486b9004ba689a805164290ad3744c73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:00 +0000
Subject: [PATCH 45/60] fix: bisect normalises both directions

---
 geometrix/arithmetic/vector/bisect.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/geometrix/arithmetic/vector/bisect.hpp b/geometrix/arithmetic/vector/bisect.hpp
index 5c0b31e..86ba71b 100644
--- a/geometrix/arithmetic/vector/bisect.hpp
+++ b/geometrix/arithmetic/vector/bisect.hpp
@@ -40,13 +40,13 @@ namespace geometrix {
 			auto one_half = constants::one_half<dimensionless_t>();
 			auto orientation = get_orientation(lo, hi, direct_comparison_policy());
 			if(orientation != oriented_right)
-				return normalize(one_half * (lo + hi));
-			return normalize(one_half * (-lo - hi));
+				return normalize(one_half * (nlo + nhi));
+			return normalize(one_half * (-nlo - nhi));
 		}
 		else if (dp == constants::negative_one<decltype(dp)>())
 			return right_normal(nhi);
 
-		return -hi;
+		return -nhi;
     }
 	
 	//! Find the bisect between two vectors whose winding (rotational) progression is counter-clockwise from lo to hi.
@@ -57,11 +57,13 @@ namespace geometrix {
 		GEOMETRIX_ASSERT(!is_antiparallel(lo, hi, direct_comparison_policy()));
         using dimensionless_t = typename dimensionless_type_of<Vector1>::type;
         auto one_half = constants::one_half<dimensionless_t>();
+		auto nlo = normalize(lo);
+		auto nhi = normalize(hi);
 		auto orientation = get_orientation(lo, hi, direct_comparison_policy());
 		if(orientation != oriented_right)
-	        return normalize(one_half * (lo + hi));
+	        return normalize(one_half * (nlo + nhi));
 		else
-	        return normalize(one_half * (-lo - hi));
+	        return normalize(one_half * (-nlo - nhi));
     }
 
 }//! namespace geometrix;
-- 
2.43.0


From aaeca96bd7153aa82b24ff74282ae9b7a243190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:00 +0000
Subject: [PATCH 46/60] fix: border ray query ignores partition planes crossed
 inside a solid

---
 geometrix/algorithm/solid_leaf_bsp_tree.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/geometrix/algorithm/solid_leaf_bsp_tree.hpp b/geometrix/algorithm/solid_leaf_bsp_tree.hpp
index 9923bb4..ee895f5 100644
--- a/geometrix/algorithm/solid_leaf_bsp_tree.hpp
+++ b/geometrix/algorithm/solid_leaf_bsp_tree.hpp
@@ -657,6 +657,7 @@ namespace geometrix {
             auto node = m_root;
             std::set<index_type> maxIndices, minIndices;
             //std::vector<simplex_type> maxS, minS;
+            auto isLeavingSolid = false;
             while (1)
             {
                 if (!is_leaf(node))
@@ -696,14 +697,19 @@ namespace geometrix {
                     if (is_solid(node))
                     {
                         //! Look at geometry in sIndices and find the closest hit.
-						if (!minIndices.empty() || !onlyBorder)
+						if (!onlyBorder || (!minIndices.empty() && !isLeavingSolid))
 						{
 							auto sIndex = find_closest_hit(p, d, minIndices, cmp);
 							return solid_bsp_ray_tracing_result<length_t>(true, tmin, sIndex);
 						}
 
-						auto sIndex = find_closest_hit(p, d, maxIndices, cmp);
-						return solid_bsp_ray_tracing_result<length_t>(true, tmax, sIndex);
+						//! The ray starts in the solid: its border is where the solid ends, not where this leaf does.
+						isLeavingSolid = true;
+                    }
+                    else if (isLeavingSolid)
+                    {
+						auto sIndex = find_closest_hit(p, d, minIndices, cmp);
+						return solid_bsp_ray_tracing_result<length_t>(true, tmin, sIndex);
                     }
 
                     //! Exit if no more subtrees to visit, else pop off a node and continue
-- 
2.43.0


From 953aebd8482fbce8d04ddf563aafc98d02e65421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:00 +0000
Subject: [PATCH 47/60] fix: number minus or over fixed_point keeps the
 run-time scale

---
 geometrix/numeric/fixed_point.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometrix/numeric/fixed_point.hpp b/geometrix/numeric/fixed_point.hpp
index 02dafe6..8b020f2 100644
--- a/geometrix/numeric/fixed_point.hpp
+++ b/geometrix/numeric/fixed_point.hpp
@@ -398,7 +398,7 @@ namespace geometrix {
     template<typename Traits, typename U, typename std::enable_if<std::is_arithmetic<U>::value, int>::type = 0>
     inline fixed_point<Traits> operator -(const U& lhs, const fixed_point<Traits>& rhs)
     {
-        return fixed_point<Traits>(lhs) -= rhs;
+        return fixed_point<Traits>(lhs, rhs) -= rhs;
     }
     template<typename Traits, typename U, typename std::enable_if<std::is_arithmetic<U>::value, int>::type = 0>
     inline fixed_point<Traits> operator /(fixed_point<Traits> lhs, const U& rhs)
@@ -409,7 +409,7 @@ namespace geometrix {
     template<typename Traits, typename U, typename std::enable_if<std::is_arithmetic<U>::value, int>::type = 0>
     inline fixed_point<Traits> operator /(const U& lhs, const fixed_point<Traits>& rhs)
     {
-        return fixed_point<Traits>(lhs) /= rhs;
+        return fixed_point<Traits>(lhs, rhs) /= rhs;
     }
 
     template<typename Traits>
-- 
2.43.0


From 49f59cd9fe6670e34b5a96580186f312e647674f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:00 +0000
Subject: [PATCH 48/60] fix: copysign of two fixed_points compiles

---
 geometrix/numeric/fixed_point.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/numeric/fixed_point.hpp b/geometrix/numeric/fixed_point.hpp
index 8b020f2..36b113f 100644
--- a/geometrix/numeric/fixed_point.hpp
+++ b/geometrix/numeric/fixed_point.hpp
@@ -343,7 +343,7 @@ namespace geometrix {
         friend fixed_point copysign(const fixed_point& v, const fixed_point& u)
         {
             using std::copysign;
-            return fixed_point{from_format_tag(), copysign(v.m_value, u.m_value), v};
+            return fixed_point{from_format_tag(), static_cast<format_type>(copysign(v.m_value, u.m_value)), v};
         }
 
     private:
-- 
2.43.0


From 7edb6e16b60c0cf6c4c36a8b4880c41fa6445e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:07 +0000
Subject: [PATCH 49/60] fix: is_segment_in_range_2d with points looks at the
 rays, not at their lines

---
 geometrix/algorithm/is_segment_in_range.hpp | 92 +++++++--------------
 1 file changed, 29 insertions(+), 63 deletions(-)

diff --git a/geometrix/algorithm/is_segment_in_range.hpp b/geometrix/algorithm/is_segment_in_range.hpp
index a4cfab4..2c3f166 100644
--- a/geometrix/algorithm/is_segment_in_range.hpp
+++ b/geometrix/algorithm/is_segment_in_range.hpp
@@ -110,83 +110,49 @@ namespace geometrix {
 			return true;
 		}
 
+		//! If both ends of the segment are left of the hi or right of the lo then it falls outside the range.
+		if( (detHiSegStart > constants::zero<area_t>() && detHiSegEnd > constants::zero<area_t>()) || (detLoSegStart < constants::zero<area_t>() && detLoSegEnd < constants::zero<area_t>()) )
+			return false;
+
+		//! Find where the segment meets the rays bounding the range.
+		Point xPointLo[2], xPointHi[2];
+		length_t t;
+		const intersection_type loIType = ray_segment_intersection( origin, normalize(lo), segment, t, xPointLo, cmp );
+		const intersection_type hiIType = ray_segment_intersection( origin, normalize(hi), segment, t, xPointHi, cmp );
+
+		if( loIType == e_overlapping || hiIType == e_overlapping )
+		{
+			xPoints[0] = get_start( segment );
+			xPoints[1] = get_start( segment );
+			return true;
+		}
+
 		if( startIn != endIn )
 		{
-			Point xPointLo, xPointHi;
-			intersection_type loIType = line_segment_intersect( origin, origin + lo, segment, xPointLo, cmp );			
 			if( loIType == e_crossing )
 			{
-				xPoints[0] = xPointLo;
+				xPoints[0] = xPointLo[0];
 				xPoints[1] = startIn ? get_start( segment ) : get_end( segment );
 				return true;
 			}
-			else if( loIType == e_overlapping )
-			{
-				xPoints[0] = get_start( segment );
-				xPoints[1] = get_start( segment );
-				return true;
-			}
 
-			intersection_type hiIType = line_segment_intersect( origin, origin + hi, segment, xPointHi, cmp );
-			if( (hiIType == e_crossing || hiIType == e_endpoint) )
+			xPoints[0] = startIn ? get_start( segment ) : get_end( segment );
+			xPoints[1] = xPoints[0];
+			if( hiIType != e_non_crossing )
 			{
 				if( loIType == e_endpoint )
-					xPoints[0] = xPointLo;
-				else
-					xPoints[0] = startIn ? get_start( segment ) : get_end( segment );
-				xPoints[1] = xPointHi;				
-				return true;
-			}
-			else if( hiIType == e_overlapping )
-			{
-				xPoints[0] = get_start( segment );
-				xPoints[1] = get_start( segment );
-				return true;
-			}
-
-			return false;
-		}
-
-		//! Are both points outside the range?
-		const auto dotHiSegStart = dot_product( hi, vSegStart );
-		const auto dotLoSegEnd = dot_product( lo, vSegEnd );
-		const auto dotLoSegStart = dot_product( lo, vSegStart );
-		const auto dotHiSegEnd = dot_product( hi, vSegEnd );
-
-		//! Check if start is outside of the hi end and end is outside the lo end.
-		//! or check if end is outside the hi end and start is outside the lo end.
-		if( ( detHiSegStart >= constants::zero<area_t>() && detLoSegEnd < constants::zero<area_t>() && dotHiSegStart > constants::zero<area_t>() && dotLoSegEnd > constants::zero<area_t>() ) ||
-			( detHiSegEnd >= constants::zero<area_t>() && detLoSegStart < constants::zero<area_t>() && dotHiSegEnd > constants::zero<area_t>() && dotLoSegStart > constants::zero<area_t>() ) )
-		{
-			//! Crosses both in this case.
-			Point xPointLo[2], xPointHi[2];
-			length_t t;
-			intersection_type loIType = ray_segment_intersection( origin, normalize(lo), segment, t, xPointLo, cmp );
-			intersection_type hiIType = ray_segment_intersection( origin, normalize(hi), segment, t, xPointHi, cmp );
-			if( (loIType == e_crossing || loIType == e_endpoint) && (hiIType == e_crossing || hiIType == e_endpoint) )
-			{
-				xPoints[0] = xPointLo[0];
+					xPoints[0] = xPointLo[0];
 				xPoints[1] = xPointHi[0];
-				return true;
-			}
-			else if( loIType == e_overlapping || hiIType == e_overlapping )
-			{
-				xPoints[0] = get_start( segment );
-				xPoints[1] = get_start( segment );
-				return true;
 			}
+			return true;
 		}
-		else 
+
+		//! Both points are outside the range: the segment is in range when it crosses both rays.
+		if( loIType != e_non_crossing && hiIType != e_non_crossing )
 		{
-			//! Special case where both segment endpoints lay on a range vector.
-			//! In that case the segment either is inside the range or outside.
-			if ((detHiSegStart == constants::zero<area_t>() && detLoSegEnd == constants::zero<area_t>() && get_orientation(get_start(segment), get_end(segment), origin, absolute_tolerance_comparison_policy<area_t>(constants::zero<area_t>())) != oriented_left) ||
-				(detHiSegEnd == constants::zero<area_t>() && detLoSegStart == constants::zero<area_t>() && get_orientation(get_start(segment), get_end(segment), origin, absolute_tolerance_comparison_policy<area_t>(constants::zero<area_t>())) != oriented_right))
-			{
-				xPoints[0] = get_start(segment);
-				xPoints[1] = get_start(segment);
-				return true;
-			}
+			xPoints[0] = xPointLo[0];
+			xPoints[1] = xPointHi[0];
+			return true;
 		}
 
 		//! The segment falls outside of the range.
-- 
2.43.0


From 3bfabe5ab1e922eecb79b463f3cdf76ba5aa5044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:34 +0000
Subject: [PATCH 50/60] fix: tangents of a circle or sphere from a point within
 the tolerance of its surface are no longer NaN

---
 .../algorithm/intersection/circle_circle_intersection.hpp      | 3 ++-
 .../algorithm/intersection/sphere_sphere_intersection.hpp      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/intersection/circle_circle_intersection.hpp b/geometrix/algorithm/intersection/circle_circle_intersection.hpp
index 0f78e45..82213a3 100644
--- a/geometrix/algorithm/intersection/circle_circle_intersection.hpp
+++ b/geometrix/algorithm/intersection/circle_circle_intersection.hpp
@@ -74,7 +74,8 @@ namespace geometrix {
 
         auto r1 = get_radius(A)*get_radius(A);
         auto a = (r1 - get_radius(B)*get_radius(B) + d*d) / (constants::two<dimensionless_t>() * d);
-        auto h = sqrt(r1 - a*a);
+        auto h2 = r1 - a*a;
+        auto h = h2 > constants::zero<decltype(h2)>() ? length_t(sqrt(h2)) : constants::zero<length_t>();//! tangent within tolerance.
 
         vector_t v = get_center(B) - get_center(A);
 
diff --git a/geometrix/algorithm/intersection/sphere_sphere_intersection.hpp b/geometrix/algorithm/intersection/sphere_sphere_intersection.hpp
index 80ae0cf..e48a9d3 100644
--- a/geometrix/algorithm/intersection/sphere_sphere_intersection.hpp
+++ b/geometrix/algorithm/intersection/sphere_sphere_intersection.hpp
@@ -74,7 +74,8 @@ namespace geometrix {
 
         auto r1 = get_radius(A) * get_radius(A);
         auto a = (r1 - get_radius(B) * get_radius(B) + d * d) / (constants::two<dimensionless_t>() * d);
-        auto h = sqrt(r1 - a*a);
+        auto h2 = r1 - a*a;
+        auto h = h2 > constants::zero<decltype(h2)>() ? length_t(sqrt(h2)) : constants::zero<length_t>();//! tangent within tolerance.
 
         vector_t v = get_center(B) - get_center(A);
 
-- 
2.43.0


From 8c580196f5a944363e2c2c077d51b6ef777c5a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:34 +0000
Subject: [PATCH 51/60] fix: Ramer-Douglas-Peucker keeps the far points of a
 loop whose ends coincide

---
 .../ramer_douglas_peucker_algorithm.hpp             | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp b/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp
index 3c05e95..cd5c329 100644
--- a/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp
+++ b/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp
@@ -15,6 +15,8 @@
 #include <geometrix/tensor/vector.hpp>
 #include <geometrix/primitive/line.hpp>
 #include <geometrix/algorithm/distance/point_line_distance.hpp>
+#include <geometrix/algorithm/distance/point_point_distance.hpp>
+#include <geometrix/tensor/numeric_sequence_compare.hpp>
 
 #include <boost/range/join.hpp>
 
@@ -36,10 +38,17 @@ namespace geometrix {
 			auto index = std::size_t{};
 			if ((start + 2) < end)
 			{
-				line_t l(access::get_point(poly, start), access::get_point(poly, end - 1));
+				//! The ends of a loop coincide and define no line.
+				const auto& a = access::get_point(poly, start);
+				const auto& b = access::get_point(poly, end - 1);
+				const bool isLoop = numeric_sequence_equals(a, b, direct_comparison_policy());
+				line_t l;
+				if (!isLoop)
+					l = line_t(a, b);
 				for (std::size_t i = start + 1; (i + 1) < end; ++i)
 				{
-					auto d = point_line_distance(access::get_point(poly, i), l);
+					const auto& p = access::get_point(poly, i);
+					length_t d = isLoop ? point_point_distance(p, a) : point_line_distance(p, l);
 					if (d > dmax)
 					{
 						index = i;
-- 
2.43.0


From 35d9e3061609731ac5a13b50477fa137f7fccd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:34 +0000
Subject: [PATCH 52/60] fix: random_index_generator never hands out the index
 one past the last

---
 geometrix/utility/random_generator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometrix/utility/random_generator.hpp b/geometrix/utility/random_generator.hpp
index 4c92a77..c492d98 100644
--- a/geometrix/utility/random_generator.hpp
+++ b/geometrix/utility/random_generator.hpp
@@ -19,13 +19,13 @@ namespace geometrix {
 
         random_index_generator( std::size_t maxIndex, unsigned long seed = 42 )
             : m_randomNumberGenerator(seed)
-            , m_range( std::size_t(0), maxIndex )
+            , m_range( std::size_t(0), maxIndex > 0 ? maxIndex - 1 : 0 )
             , m_generator( m_randomNumberGenerator, m_range )
         {}
         
         random_index_generator( std::size_t maxIndex, const RandomNumberGenerator& rng )
             : m_randomNumberGenerator(rng)
-            , m_range( std::size_t(0), maxIndex )
+            , m_range( std::size_t(0), maxIndex > 0 ? maxIndex - 1 : 0 )
             , m_generator( m_randomNumberGenerator, m_range )
         {}
 
-- 
2.43.0


From 9326cb7a6fc1c01f7fdfbd76218682537ffed8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:34 +0000
Subject: [PATCH 53/60] fix: slerp.hpp compiles with standard conforming
 compilers (missing typename)

---
 geometrix/arithmetic/vector/slerp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/arithmetic/vector/slerp.hpp b/geometrix/arithmetic/vector/slerp.hpp
index 6f4292b..4d0d68a 100644
--- a/geometrix/arithmetic/vector/slerp.hpp
+++ b/geometrix/arithmetic/vector/slerp.hpp
@@ -20,7 +20,7 @@ namespace geometrix {
         template <typename Vector1, typename Vector2, typename Scalar, typename EnableIf = void>
         struct slerp
         {
-            using dimensionless_t = dimensionless_type_of<Vector1>::type;
+            using dimensionless_t = typename dimensionless_type_of<Vector1>::type;
             using type = vector<dimensionless_t, dimension_of<Vector1>::value>;
         };
     }//namespace result_of;
-- 
2.43.0


From 9d967ee3ac87f701656020b4da9687ff96feca5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:34 +0000
Subject: [PATCH 54/60] fix: segment_polygon_closest_point over the sub range
 made of the closing edge measures it

---
 geometrix/algorithm/distance/segment_polygon_closest_point.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/distance/segment_polygon_closest_point.hpp b/geometrix/algorithm/distance/segment_polygon_closest_point.hpp
index eedc136..e43f45c 100644
--- a/geometrix/algorithm/distance/segment_polygon_closest_point.hpp
+++ b/geometrix/algorithm/distance/segment_polygon_closest_point.hpp
@@ -66,7 +66,7 @@ namespace geometrix {
         std::size_t i0 = std::get<0>(subRange), i1 = std::get<1>(subRange);
         GEOMETRIX_ASSERT(i0 < i1 || i0 == size-1);//! this doesn't support wrapping around except for the segment just before 0.
         auto distance = std::numeric_limits<dist_type>::infinity();
-        for (std::size_t i = i0, j = i0 + 1; j <= i1; i = j++)
+        for (std::size_t i = i0, j = (i0 + 1) % size; j <= i1; i = j++)
         {
             auto sl = Dimensionless{};
             auto tl = Dimensionless{};
-- 
2.43.0


From 1fe72ecdc4f116eb7d52af9a0a2724eca7887839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:34 +0000
Subject: [PATCH 55/60] fix: convex_polygon_polygon_intersection walks the
 contained polygon with its own vertex count

---
 .../intersection/convex_polygon_polygon_intersection.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp b/geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp
index ded477f..29b41c2 100644
--- a/geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp
+++ b/geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp
@@ -160,7 +160,7 @@ namespace geometrix {
             //! Check if one vertex of either is inside.
             if (point_in_polygon(get_point1(0), pgon2)) 
             {
-                for (auto i = 0ULL; i < m; ++i)
+                for (auto i = 0ULL; i < n; ++i)
                     visitor(get_point1(i));
                 return polygon_intersection_type::overlapping;
             }
-- 
2.43.0


From ff307506561597d37d885e0ab1faa4911d571f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:34 +0000
Subject: [PATCH 56/60] fix: convex_polygon_polygon_intersection uses the
 access traits of the polygon it measures

---
 .../intersection/convex_polygon_polygon_intersection.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp b/geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp
index 29b41c2..eca3e6c 100644
--- a/geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp
+++ b/geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp
@@ -63,7 +63,7 @@ namespace geometrix {
 
         auto n = access1::size(pgon1);
         auto n2 = n * 2;
-        auto m = access1::size(pgon2);
+        auto m = access2::size(pgon2);
         auto m2 = m * 2;
 
         auto nVisited = 0;
-- 
2.43.0


From 40e1cf51c159c7fe32742aba29ff39cd86508d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:34 +0000
Subject: [PATCH 57/60] fix: closest point to a degenerate segment is its
 point, not NaN

---
 .../algorithm/distance/point_segment_closest_point.hpp     | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/geometrix/algorithm/distance/point_segment_closest_point.hpp b/geometrix/algorithm/distance/point_segment_closest_point.hpp
index 197a32b..094c3f9 100644
--- a/geometrix/algorithm/distance/point_segment_closest_point.hpp
+++ b/geometrix/algorithm/distance/point_segment_closest_point.hpp
@@ -70,6 +70,8 @@ namespace geometrix {
 		vector_t AP = p - A;
 		vector_t AB = B - A;
 		auto l2 = dot_product(AB, AB);
+		if (l2 <= construct<decltype(l2)>(0))
+			return construct<point_t>(A);//! The segment is a point.
 		auto t = dot_product(AP, AB) / l2;
 		if (t <= constants::zero<dimensionless_t>())
             return construct<point_t>(A);
@@ -87,6 +89,11 @@ namespace geometrix {
 		vector_t AP = p - A;
 		vector_t AB = B - A;
 		auto l2 = dot_product(AB, AB);
+		if (l2 <= construct<decltype(l2)>(0))
+		{
+			t = constants::zero<Dimensionless>();
+			return construct<point_t>(A);//! The segment is a point.
+		}
 		t = dot_product(AP, AB) / l2;
 		if (t <= constants::zero<Dimensionless>())
             return construct<point_t>(A);
-- 
2.43.0


From d6f5be691c914ff303b5ede25513ef8e318cc226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:34 +0000
Subject: [PATCH 58/60] fix: intersection of a point-like segment with a
 segment in space tests whether the point lies on it

---
 .../intersection/segment_segment_intersection.hpp    | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/geometrix/algorithm/intersection/segment_segment_intersection.hpp b/geometrix/algorithm/intersection/segment_segment_intersection.hpp
index e731a2e..1c6d460 100644
--- a/geometrix/algorithm/intersection/segment_segment_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_segment_intersection.hpp
@@ -13,6 +13,7 @@
 #include <geometrix/arithmetic/vector.hpp>
 #include <geometrix/algorithm/bounding_box_intersection.hpp>
 #include <geometrix/utility/utilities.hpp>
+#include <geometrix/tensor/numeric_sequence_compare.hpp>
 #include <geometrix/numeric/constants.hpp>
 
 #include <boost/fusion/algorithm/query/all.hpp>
@@ -260,6 +261,17 @@ namespace geometrix {
             }
             else
             {
+                //! The first segment is a point.
+                if( cmp.equals(a, constants::zero<area_t>()) )
+                {
+                    if( !cmp.equals(c, constants::zero<area_t>()) )
+                        return segment_segment_intersection( p3, p4, p1, p2, iPoint, cmp, dimension<3>() );
+                    if( !numeric_sequence_equals( p1, p3, cmp ) )
+                        return e_non_crossing;
+                    iPoint[0] = construct<XPoint>(p1);
+                    return e_endpoint;
+                }
+
                 //! Parallel
                 if( !boost::fusion::all( v1 ^ (p3-p1), boost::lambda::_1 == constants::zero<length_t>() ) )
                     return e_non_crossing;
-- 
2.43.0


From d065172a3d6bcf6e8ef00e404838df77093e187c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:32 +0000
Subject: [PATCH 59/60] fix: removing collinear points of a polygon also drops
 the last point of a run that closes the ring

---
 .../algorithm/point_sequence/remove_collinear_points.hpp  | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/geometrix/algorithm/point_sequence/remove_collinear_points.hpp b/geometrix/algorithm/point_sequence/remove_collinear_points.hpp
index 193d70f..5adbbbe 100644
--- a/geometrix/algorithm/point_sequence/remove_collinear_points.hpp
+++ b/geometrix/algorithm/point_sequence/remove_collinear_points.hpp
@@ -52,6 +52,10 @@ namespace geometrix {
             }
         }
 
+        //! The last point may close a run that goes on to the first.
+        if (access::size(newPoly) > 2 && is_collinear(access::get_point(newPoly, access::size(newPoly) - 2), access::back(newPoly), access::front(poly), cmp))
+            cPoints.insert(bIndex);
+
         return cPoints;
     }
 
@@ -80,6 +84,10 @@ namespace geometrix {
                 assign(b, c);//! replace b with c.      
         }
 
+        //! The last point may close a run that goes on to the first.
+        if (access::size(newPoly) > 2 && is_collinear(access::get_point(newPoly, access::size(newPoly) - 2), access::back(newPoly), access::front(poly), cmp))
+            newPoly.pop_back();
+
         return newPoly;
     }
 
-- 
2.43.0


From fc3186a9bb10ece4af399fd9c47acdd12855ac8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:32 +0000
Subject: [PATCH 60/60] fix: the point type of a circle in space is a point in
 space

---
 geometrix/primitive/sphere.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/primitive/sphere.hpp b/geometrix/primitive/sphere.hpp
index 2bebe4b..4b8f9ae 100644
--- a/geometrix/primitive/sphere.hpp
+++ b/geometrix/primitive/sphere.hpp
@@ -101,7 +101,7 @@ typedef sphere2_double_3d          circle_double_3d;
 
 //! Define some default traits.
 GEOMETRIX_DEFINE_SPHERE_TRAITS(2, point_double_2d, sphere2_double_2d);
-GEOMETRIX_DEFINE_SPHERE_TRAITS(2, point_double_2d, sphere2_double_3d);
+GEOMETRIX_DEFINE_SPHERE_TRAITS(2, point_double_3d, sphere2_double_3d);
 GEOMETRIX_DEFINE_SPHERE_TRAITS(3, point_double_3d, sphere3_double_3d);
 
 GEOMETRIX_DEFINE_SPHERE_ACCESS_TRAITS(sphere2_double_2d);
-- 
2.43.0

