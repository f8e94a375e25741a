From 2316f52c8813c2241f9aefa41198071d083f12f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:33 +0000
Subject: [PATCH 01/32] fix: coordinate factories return the type they
 construct when the two angle units differ

---
 .../astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp    | 4 ++--
 .../astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp    | 4 ++--
 .../boost/astronomy/coordinate/coord_sys/galactic_coord.hpp   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp b/include/boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp
index efd18b4..9035981 100644
--- a/include/boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp
@@ -153,8 +153,8 @@ template
 equatorial_ha_coord
 <
     CoordinateType,
-    Declination<Unit1, CoordinateType>,
-    HourAngleQuantity<Unit2, CoordinateType>
+    HourAngleQuantity<Unit2, CoordinateType>,
+    Declination<Unit1, CoordinateType>
 > make_equatorial_ha_coord
 (
     HourAngleQuantity<Unit2, CoordinateType> const &Ha,
diff --git a/include/boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp b/include/boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp
index 974e921..56d579e 100644
--- a/include/boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp
@@ -151,8 +151,8 @@ template
 equatorial_ra_coord
 <
   CoordinateType,
-  Declination<Unit1, CoordinateType>,
-  RightAscensionQuantity<Unit2, CoordinateType>
+  RightAscensionQuantity<Unit2, CoordinateType>,
+  Declination<Unit1, CoordinateType>
 > make_equatorial_ra_coord
 (
     RightAscensionQuantity<Unit2, CoordinateType> const &Ra,
diff --git a/include/boost/astronomy/coordinate/coord_sys/galactic_coord.hpp b/include/boost/astronomy/coordinate/coord_sys/galactic_coord.hpp
index 9b75d39..f593c60 100644
--- a/include/boost/astronomy/coordinate/coord_sys/galactic_coord.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/galactic_coord.hpp
@@ -154,8 +154,8 @@ template
 galactic_coord
 <
     CoordinateType,
-    LonQuantity<Unit1, CoordinateType>,
-    LatQuantity<Unit2, CoordinateType>
+    LatQuantity<Unit2, CoordinateType>,
+    LonQuantity<Unit1, CoordinateType>
 > make_galactic_coord
 (
         LatQuantity<Unit2, CoordinateType> const &Lat,
-- 
2.43.0


From e562f2c91ccbb82fe97a40b1bdb580fcf894e5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:27 +0000
Subject: [PATCH 02/32] fix: spherical_coslat_differential arithmetic and
 conversion compile and keep the components

---
 .../diff/spherical_coslat_differential.hpp         | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp b/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
index 9c0ab4f..b570f78 100644
--- a/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
+++ b/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
@@ -243,8 +243,7 @@ public:
     >
     operator +(Addend const& addend) const
     {
-        auto cartesian1 = make_cartesian_differential
-            <CoordinateType, DistQuantity, DistQuantity, DistQuantity>(this->diff);
+        auto cartesian1 = make_cartesian_differential(*this);
         auto cartesian2 = make_cartesian_differential(addend);
 
         auto temp = cartesian1 + cartesian2;
@@ -269,7 +268,7 @@ public:
     {
 
         spherical_coslat_differential
-            <CoordinateType, LatQuantity, LonQuantity, DistQuantity> temp(this->diff);
+            <CoordinateType, LatQuantity, LonQuantity, DistQuantity> temp(*this);
 
         spherical_coslat_differential
         <
@@ -458,7 +457,14 @@ auto make_spherical_coslat_differential
             bu::quantity<bu::si::plane_angle, typename spherical_type::type>,
             bu::quantity<bu::si::plane_angle, typename spherical_type::type>,
             typename spherical_type::quantity3
-        >(temp.get_differential());
+        >
+        (
+            static_cast<bu::quantity<bu::si::plane_angle, typename spherical_type::type>>
+                (temp.get_dlat()),
+            static_cast<bu::quantity<bu::si::plane_angle, typename spherical_type::type>>
+                (temp.get_dlon()),
+            temp.get_ddist()
+        );
 }
 
 //!constructs cartesian object from spherical_coslat_differential
-- 
2.43.0


From 0ae6362b1f949463dc0d89b5adcad87d0ccdca0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:41 +0000
Subject: [PATCH 03/32] fix: spherical classes give the origin a defined second
 angle when built from a point

---
 .../coordinate/diff/spherical_coslat_differential.hpp          | 3 +++
 .../boost/astronomy/coordinate/diff/spherical_differential.hpp | 3 +++
 .../coordinate/diff/spherical_equatorial_differential.hpp      | 3 +++
 .../coordinate/rep/spherical_equatorial_representation.hpp     | 3 +++
 .../astronomy/coordinate/rep/spherical_representation.hpp      | 3 +++
 5 files changed, 15 insertions(+)

diff --git a/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp b/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
index b570f78..ebbcb7a 100644
--- a/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
+++ b/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
@@ -98,6 +98,9 @@ public:
     {
         bg::model::point<OtherCoordinateType, 3, bg::cs::cartesian> temp;
         bg::transform(pointObject, temp);
+
+        //transform does not assign the second angle of the origin
+        bg::set<1>(this->diff, CoordinateType(0));
         bg::transform(temp, this->diff);
     }
 
diff --git a/include/boost/astronomy/coordinate/diff/spherical_differential.hpp b/include/boost/astronomy/coordinate/diff/spherical_differential.hpp
index 767db4f..da8312b 100644
--- a/include/boost/astronomy/coordinate/diff/spherical_differential.hpp
+++ b/include/boost/astronomy/coordinate/diff/spherical_differential.hpp
@@ -95,6 +95,9 @@ public:
     {
         bg::model::point<OtherCoordinateType, 3, bg::cs::cartesian> temp;
         bg::transform(pointObject, temp);
+
+        //transform does not assign the second angle of the origin
+        bg::set<1>(this->diff, CoordinateType(0));
         bg::transform(temp, this->diff);
     }
 
diff --git a/include/boost/astronomy/coordinate/diff/spherical_equatorial_differential.hpp b/include/boost/astronomy/coordinate/diff/spherical_equatorial_differential.hpp
index 8cc661f..661f5d9 100644
--- a/include/boost/astronomy/coordinate/diff/spherical_equatorial_differential.hpp
+++ b/include/boost/astronomy/coordinate/diff/spherical_equatorial_differential.hpp
@@ -95,6 +95,9 @@ public:
     {
         bg::model::point<OtherCoordinateType, 3, bg::cs::cartesian> temp;
         bg::transform(pointObject, temp);
+
+        //transform does not assign the second angle of the origin
+        bg::set<1>(this->diff, CoordinateType(0));
         bg::transform(temp, this->diff);
     }
 
diff --git a/include/boost/astronomy/coordinate/rep/spherical_equatorial_representation.hpp b/include/boost/astronomy/coordinate/rep/spherical_equatorial_representation.hpp
index 1b3fd1e..c950938 100644
--- a/include/boost/astronomy/coordinate/rep/spherical_equatorial_representation.hpp
+++ b/include/boost/astronomy/coordinate/rep/spherical_equatorial_representation.hpp
@@ -106,6 +106,9 @@ public:
     {
         bg::model::point<OtherCoordinateType, 3, bg::cs::cartesian> temp;
         bg::transform(pointObject, temp);
+
+        //transform does not assign the second angle of the origin
+        bg::set<1>(this->point, CoordinateType(0));
         bg::transform(temp, this->point);
     }
 
diff --git a/include/boost/astronomy/coordinate/rep/spherical_representation.hpp b/include/boost/astronomy/coordinate/rep/spherical_representation.hpp
index b2d6737..bb1340a 100644
--- a/include/boost/astronomy/coordinate/rep/spherical_representation.hpp
+++ b/include/boost/astronomy/coordinate/rep/spherical_representation.hpp
@@ -113,6 +113,9 @@ public:
     {
         bg::model::point<OtherCoordinateType, 3, bg::cs::cartesian> temp;
         bg::transform(pointObject, temp);
+
+        //transform does not assign the second angle of the origin
+        bg::set<1>(this->point, CoordinateType(0));
         bg::transform(temp, this->point);
     }
 
-- 
2.43.0


From 79eccf0652184d627f70bc8ada2eaae01745573a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:42 +0000
Subject: [PATCH 04/32] fix: frame setters set_az, set_sgl and cirs observation
 time compile

---
 include/boost/astronomy/coordinate/coord_sys/alt_az.hpp       | 2 +-
 .../boost/astronomy/coordinate/coord_sys/supergalactic.hpp    | 2 +-
 include/boost/astronomy/coordinate/ref_frame/cirs.hpp         | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/astronomy/coordinate/coord_sys/alt_az.hpp b/include/boost/astronomy/coordinate/coord_sys/alt_az.hpp
index 02d1150..408f738 100644
--- a/include/boost/astronomy/coordinate/coord_sys/alt_az.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/alt_az.hpp
@@ -229,7 +229,7 @@ public:
     }
 
     //!sets value of azimuth component of the coordinate
-    void set_az(typename Representation::quantity3 const& az)
+    void set_az(typename Representation::quantity2 const& az)
     {
         this->data.set_lon(az);
     }
diff --git a/include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp b/include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp
index 37203f1..0b8e8aa 100644
--- a/include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp
@@ -202,7 +202,7 @@ public:
     }
 
     //!sets value of component sgl of the supergalactic coordinate
-    void set_sgl(typename Representation::quantity2 const& sgl) const
+    void set_sgl(typename Representation::quantity2 const& sgl)
     {
         this->data.set_lon(sgl);
     }
diff --git a/include/boost/astronomy/coordinate/ref_frame/cirs.hpp b/include/boost/astronomy/coordinate/ref_frame/cirs.hpp
index 975a88c..8cd4313 100644
--- a/include/boost/astronomy/coordinate/ref_frame/cirs.hpp
+++ b/include/boost/astronomy/coordinate/ref_frame/cirs.hpp
@@ -65,12 +65,12 @@ public:
 
     boost::posix_time::ptime get_obs_time() const
     {
-        return this->obstime;
+        return this->obs_time;
     }
 
     void set_obs_time(boost::posix_time::ptime const& time)
     {
-        this->obstime = time;
+        this->obs_time = time;
     }
 };
 
-- 
2.43.0


From 577ffaf3f516e84eb7268aab1461237b93c5c07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:42 +0000
Subject: [PATCH 05/32] fix: base_frame::get_proper_motion converts the stored
 radians to the motion's units

---
 .../boost/astronomy/coordinate/ref_frame/base_frame.hpp   | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp b/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
index 74d46d1..34cd652 100644
--- a/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
+++ b/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
@@ -60,8 +60,12 @@ public:
     {
         return std::make_tuple
         (
-            Differential::quantity1::from_value(bg::get<0>(motion.get_differential())),
-            Differential::quantity2::from_value(bg::get<1>(motion.get_differential()))
+            static_cast<typename Differential::quantity1>(
+                bu::quantity<bu::si::plane_angle, typename Differential::type>::from_value(
+                    bg::get<0>(motion.get_differential()))),
+            static_cast<typename Differential::quantity2>(
+                bu::quantity<bu::si::plane_angle, typename Differential::type>::from_value(
+                    bg::get<1>(motion.get_differential())))
         );
     }
 
-- 
2.43.0


From 35738b5bcd5f3ad4f959acbbe764992a22d3b980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:38 +0000
Subject: [PATCH 06/32] fix: galactic_to_ra_dec is the inverse of
 ra_dec_to_galactic

---
 .../boost/astronomy/coordinate/utility/utility.hpp   | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/astronomy/coordinate/utility/utility.hpp b/include/boost/astronomy/coordinate/utility/utility.hpp
index 685066c..4b6454f 100644
--- a/include/boost/astronomy/coordinate/utility/utility.hpp
+++ b/include/boost/astronomy/coordinate/utility/utility.hpp
@@ -228,13 +228,13 @@ struct galactic_to_ra_dec
 
   galactic_to_ra_dec(){
     conv(0,0) = -0.0669887;
-    conv(0,1) = 0.8727558;
-    conv(0,2) = -0.4835389;
-    conv(1,0) = -0.4927285;
+    conv(0,1) = 0.4927285;
+    conv(0,2) = -0.8676008;
+    conv(1,0) = -0.8727558;
     conv(1,1) = -0.4503470;
-    conv(1,2) = -0.7445846;
-    conv(2,0) = -0.8676008;
-    conv(2,1) = 0.1883746;
+    conv(1,2) = -0.1883746;
+    conv(2,0) = -0.4835389;
+    conv(2,1) = 0.7445846;
     conv(2,2) = 0.4601998;
   }
 
-- 
2.43.0


From 238aae121a4aa8e486740899caf4d7b648ed82d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:38 +0000
Subject: [PATCH 07/32] fix: decimal_hour built from hours, minutes and seconds
 has its parts

---
 include/boost/astronomy/time/parser.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/boost/astronomy/time/parser.hpp b/include/boost/astronomy/time/parser.hpp
index 926bf7c..1d88760 100644
--- a/include/boost/astronomy/time/parser.hpp
+++ b/include/boost/astronomy/time/parser.hpp
@@ -36,9 +36,8 @@ public:
       seconds = secondsRemainder;
     }
 
-    decimal_hour(double const& h,double const& m,double const& s){
-      dh = h + m/60 + s/(60*60);
-    }
+    decimal_hour(double const& h,double const& m,double const& s)
+        : decimal_hour(h + m/60 + s/(60*60)) {}
 
     double get() const{
         return dh;
-- 
2.43.0


From ee8aa62f6946da13f4b9acce2039deb70e9d1687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:38 +0000
Subject: [PATCH 08/32] fix: julian_date applies the Gregorian correction from
 1582 October 15

---
 include/boost/astronomy/time/time_conversions.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/astronomy/time/time_conversions.hpp b/include/boost/astronomy/time/time_conversions.hpp
index ca35717..eb0619c 100644
--- a/include/boost/astronomy/time/time_conversions.hpp
+++ b/include/boost/astronomy/time/time_conversions.hpp
@@ -54,10 +54,10 @@ double julian_date(boost::posix_time::ptime t)
         mprime = m;
     }
 
-    //Calculate B, check if the date is later than 1582 October 15
+    //Calculate B, check if the date is 1582 October 15 or later
     double B;
-    boost::gregorian::date dt1(1582, boost::gregorian::Oct , 1);
-    if ( dt > dt1 )
+    boost::gregorian::date dt1(1582, boost::gregorian::Oct , 15);
+    if ( dt >= dt1 )
     {
         double A = floor(yprime / 100);
         B = 2 - A + floor(A / 4);
-- 
2.43.0


From 8dd1362c78f61c7d585bfea2e1f84351ffd7ddf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:38 +0000
Subject: [PATCH 09/32] fix: GST uses the fraction of a second of the time of
 day

---
 include/boost/astronomy/time/time_conversions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/time/time_conversions.hpp b/include/boost/astronomy/time/time_conversions.hpp
index eb0619c..70a5973 100644
--- a/include/boost/astronomy/time/time_conversions.hpp
+++ b/include/boost/astronomy/time/time_conversions.hpp
@@ -104,7 +104,7 @@ decimal_hour GST(boost::posix_time::ptime t)
     T0 = T0 - 24.0 * floor(T0/24.0);
 
     //Convert UT to decimal hours
-    double UT = ((t.time_of_day().seconds())/60.0 + t.time_of_day().minutes())/60.0 + t.time_of_day().hours();
+    double UT = t.time_of_day().total_microseconds() / 3600000000.0;
 
     //Multiply UT by 1.002737909
     double A = UT * 1.002737909;
-- 
2.43.0


From 55e8329ce5c7ed8096df3126ec3eda261e9ad625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:42 +0000
Subject: [PATCH 10/32] fix: functions defined in headers are inline

---
 .../astronomy/io/binary_data_converter.hpp    | 44 +++++++++----------
 include/boost/astronomy/io/bitpix.hpp         |  2 +-
 include/boost/astronomy/time/parser.hpp       |  2 +-
 .../boost/astronomy/time/time_conversions.hpp |  6 +--
 4 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/include/boost/astronomy/io/binary_data_converter.hpp b/include/boost/astronomy/io/binary_data_converter.hpp
index 10466ce..b962160 100644
--- a/include/boost/astronomy/io/binary_data_converter.hpp
+++ b/include/boost/astronomy/io/binary_data_converter.hpp
@@ -259,11 +259,11 @@ namespace boost{namespace astronomy{namespace io{
     };
 
     template<>
-    bool binary_data_converter::deserialize_to(const std::string& element, int) {
+    inline bool binary_data_converter::deserialize_to(const std::string& element, int) {
         return element[0] == 'T';
     }
     template<>
-    std::vector<bool> binary_data_converter::deserialize_to(const std::string& elements,int) {
+    inline std::vector<bool> binary_data_converter::deserialize_to(const std::string& elements,int) {
         std::vector<bool> values;
         for (auto element : elements) {
             values.emplace_back(element == 'T');
@@ -272,46 +272,46 @@ namespace boost{namespace astronomy{namespace io{
     }
 
     template<>
-    boost::int16_t binary_data_converter::deserialize_to(const std::string& element, int) {
+    inline boost::int16_t binary_data_converter::deserialize_to(const std::string& element, int) {
         return element_to_numeric<boost::int16_t>(element);
     }
 
     template<>
-    std::vector<boost::int16_t> binary_data_converter::deserialize_to(const std::string& elements, int num_elements) {
+    inline std::vector<boost::int16_t> binary_data_converter::deserialize_to(const std::string& elements, int num_elements) {
         return elements_to_numeric_collection<boost::int16_t>(
             elements, num_elements);
     }
 
     template<>
-    boost::int32_t binary_data_converter::deserialize_to(const std::string& element, int) {
+    inline boost::int32_t binary_data_converter::deserialize_to(const std::string& element, int) {
         return element_to_numeric<boost::int32_t>(element);
     }
     template<>
-    std::vector<boost::int32_t> binary_data_converter::deserialize_to(const std::string& elements, int num_elements) {
+    inline std::vector<boost::int32_t> binary_data_converter::deserialize_to(const std::string& elements, int num_elements) {
         return binary_data_converter::elements_to_numeric_collection<boost::int32_t>(
             elements, num_elements);
     }
 
     template<>
-    boost::float32_t binary_data_converter::deserialize_to(const std::string& element,int) {
+    inline boost::float32_t binary_data_converter::deserialize_to(const std::string& element,int) {
         return element_to_numeric<boost::float32_t, boost::int32_t>(element);
     }
     template<>
-    std::vector<boost::float32_t> binary_data_converter::deserialize_to(const std::string& elements, int num_elements) {
+    inline std::vector<boost::float32_t> binary_data_converter::deserialize_to(const std::string& elements, int num_elements) {
         return elements_to_numeric_collection<boost::float32_t, boost::int32_t>(
             elements, num_elements);
     }
     template<>
-    boost::float64_t binary_data_converter::deserialize_to(const std::string& element, int) {
+    inline boost::float64_t binary_data_converter::deserialize_to(const std::string& element, int) {
         return binary_data_converter::element_to_numeric<boost::float64_t, boost::int64_t>(element);
     }
     template<>
-    std::vector<boost::float64_t> binary_data_converter::deserialize_to(const std::string& elements, int num_elements) {
+    inline std::vector<boost::float64_t> binary_data_converter::deserialize_to(const std::string& elements, int num_elements) {
         return binary_data_converter::elements_to_numeric_collection<boost::float64_t, boost::int64_t>(
             elements, num_elements);
     }
     template<>
-    std::pair<boost::int32_t, boost::int32_t> binary_data_converter::deserialize_to(const std::string& element,int) {
+    inline std::pair<boost::int32_t, boost::int32_t> binary_data_converter::deserialize_to(const std::string& element,int) {
         auto x = boost::endian::big_to_native(
             *reinterpret_cast<const boost::int32_t*>(element.c_str()));
         auto y = boost::endian::big_to_native(
@@ -319,7 +319,7 @@ namespace boost{namespace astronomy{namespace io{
         return std::make_pair(x, y);
     }
     template<>
-    std::vector<std::pair<boost::int32_t, boost::int32_t>> binary_data_converter::deserialize_to(const std::string& elements, int num_elements) {
+    inline std::vector<std::pair<boost::int32_t, boost::int32_t>> binary_data_converter::deserialize_to(const std::string& elements, int num_elements) {
         std::vector<std::pair<boost::int32_t, boost::int32_t>> values;
         values.reserve(num_elements);
         for (std::size_t i = 0; i < num_elements; i++) {
@@ -333,49 +333,49 @@ namespace boost{namespace astronomy{namespace io{
         return values;
     }
     template<>
-    std::complex<boost::float32_t> binary_data_converter::deserialize_to(const std::string& element,int) {
+    inline std::complex<boost::float32_t> binary_data_converter::deserialize_to(const std::string& element,int) {
         return element_to_complex<boost::float32_t, boost::int32_t>(element);
     }
     template<>
-    std::vector<std::complex<boost::float32_t>> binary_data_converter::deserialize_to(const std::string& elements, int num_elements) {
+    inline std::vector<std::complex<boost::float32_t>> binary_data_converter::deserialize_to(const std::string& elements, int num_elements) {
         return elements_to_complex_collection<boost::float32_t, boost::int32_t>(
             elements, num_elements);
     }
     template<>
-    std::complex<boost::float64_t>binary_data_converter::deserialize_to(const std::string& element,int) {
+    inline std::complex<boost::float64_t>binary_data_converter::deserialize_to(const std::string& element,int) {
         return element_to_complex<boost::float64_t, boost::int64_t>(element);
     }
     template<>
-    std::vector<std::complex<boost::float64_t>> binary_data_converter::deserialize_to(const std::string& elements, int num_elements) {
+    inline std::vector<std::complex<boost::float64_t>> binary_data_converter::deserialize_to(const std::string& elements, int num_elements) {
         return elements_to_complex_collection<boost::float64_t, boost::int64_t>(
             elements,num_elements);
     }
     template<>
-    std::uint8_t binary_data_converter::deserialize_to(const std::string& element, int) {
+    inline std::uint8_t binary_data_converter::deserialize_to(const std::string& element, int) {
         return element_to_byte<std::uint8_t>(element);
     }
     template<>
-    std::vector<std::uint8_t> binary_data_converter::deserialize_to(const std::string& elements, int num_elements) {
+    inline std::vector<std::uint8_t> binary_data_converter::deserialize_to(const std::string& elements, int num_elements) {
         return elements_to_byte_collection<std::uint8_t>(
             elements, num_elements);
     }
     template<>
-    char binary_data_converter::deserialize_to(const std::string& element, int) {
+    inline char binary_data_converter::deserialize_to(const std::string& element, int) {
         return binary_data_converter::element_to_byte<char>(element);
     }
     template<>
-    std::vector<char> binary_data_converter::deserialize_to(const std::string& elements,int num_elements) {
+    inline std::vector<char> binary_data_converter::deserialize_to(const std::string& elements,int num_elements) {
         return binary_data_converter::elements_to_byte_collection<char>(
             elements, num_elements);
     }
 
     template<>
-    std::string binary_data_converter::serialize(bool value) {
+    inline std::string binary_data_converter::serialize(bool value) {
         return value ? std::string(1,'T') : std::string(1,'F');
     }
 
     template<>
-    std::string binary_data_converter::serialize(const std::vector<bool>& values) {
+    inline std::string binary_data_converter::serialize(const std::vector<bool>& values) {
         std::string data;
         data.resize(values.size());
 
diff --git a/include/boost/astronomy/io/bitpix.hpp b/include/boost/astronomy/io/bitpix.hpp
index 855fd53..920b468 100644
--- a/include/boost/astronomy/io/bitpix.hpp
+++ b/include/boost/astronomy/io/bitpix.hpp
@@ -31,7 +31,7 @@ enum class bitpix
  * @brief   Returns the element's size on the basis of its bitpix type
  * @param[in]  bitpix_value The bitpix value associated with the element
 */
- int get_element_size_from_bitpix(bitpix bitpix_value) {
+ inline int get_element_size_from_bitpix(bitpix bitpix_value) {
     switch (bitpix_value)
     {
     case boost::astronomy::io::bitpix::B8:
diff --git a/include/boost/astronomy/time/parser.hpp b/include/boost/astronomy/time/parser.hpp
index 1d88760..ace1623 100644
--- a/include/boost/astronomy/time/parser.hpp
+++ b/include/boost/astronomy/time/parser.hpp
@@ -56,7 +56,7 @@ public:
     }
 };
 
-std::ostream& operator << (std::ostream &out, decimal_hour const& dh)
+inline std::ostream& operator << (std::ostream &out, decimal_hour const& dh)
 {
     std::string time_string = std::to_string(dh.get_hours()) + "h " + std::to_string(dh.get_minutes()) + "m " + std::to_string(dh.get_seconds()) + "s ";
     return out << "Hours: " << time_string;
diff --git a/include/boost/astronomy/time/time_conversions.hpp b/include/boost/astronomy/time/time_conversions.hpp
index 70a5973..b008a0d 100644
--- a/include/boost/astronomy/time/time_conversions.hpp
+++ b/include/boost/astronomy/time/time_conversions.hpp
@@ -30,7 +30,7 @@ namespace boost { namespace astronomy { namespace time {
  * made on the Greenwich meridian, longitude 0◦.
  */
 
-double julian_date(boost::posix_time::ptime t)
+inline double julian_date(boost::posix_time::ptime t)
 {
     //Get date from UT
     boost::gregorian::date dt = t.date();
@@ -89,7 +89,7 @@ double julian_date(boost::posix_time::ptime t)
     return JD;
 }
 
-decimal_hour GST(boost::posix_time::ptime t)
+inline decimal_hour GST(boost::posix_time::ptime t)
 {
     //Get Julian Day Number
     double JD = julian_date(t);
@@ -121,7 +121,7 @@ decimal_hour GST(boost::posix_time::ptime t)
 enum class DIRECTION {WEST, EAST};
 
 //Local Sidereal Time (LST)
-decimal_hour LST(double longitude, DIRECTION direction, boost::posix_time::ptime t)
+inline decimal_hour LST(double longitude, DIRECTION direction, boost::posix_time::ptime t)
 {
     double gst = GST(t).get();
 
-- 
2.43.0


From 0bcc4b99c82cdda859a60ad8305e4df5b46ef8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:42 +0000
Subject: [PATCH 11/32] fix: each array descriptor of a vector is decoded from
 its own eight bytes

---
 include/boost/astronomy/io/binary_data_converter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/binary_data_converter.hpp b/include/boost/astronomy/io/binary_data_converter.hpp
index b962160..bc6e47a 100644
--- a/include/boost/astronomy/io/binary_data_converter.hpp
+++ b/include/boost/astronomy/io/binary_data_converter.hpp
@@ -325,9 +325,9 @@ namespace boost{namespace astronomy{namespace io{
         for (std::size_t i = 0; i < num_elements; i++) {
             values.emplace_back(
                 boost::endian::big_to_native(
-                    *(reinterpret_cast<const boost::int32_t*>(elements.c_str()) + i)),
+                    *(reinterpret_cast<const boost::int32_t*>(elements.c_str()) + 2 * i)),
                 boost::endian::big_to_native(
-                    *(reinterpret_cast<const boost::int32_t*>(elements.c_str()) + i +
+                    *(reinterpret_cast<const boost::int32_t*>(elements.c_str()) + 2 * i +
                         1)));
         }
         return values;
-- 
2.43.0


From 435db4b34afddbbbe7b64b936ae08c19d1a38cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:42 +0000
Subject: [PATCH 12/32] fix: 8-bit pixels are unsigned and decoded

---
 include/boost/astronomy/io/bitpix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/bitpix.hpp b/include/boost/astronomy/io/bitpix.hpp
index 920b468..bec700c 100644
--- a/include/boost/astronomy/io/bitpix.hpp
+++ b/include/boost/astronomy/io/bitpix.hpp
@@ -64,7 +64,7 @@ enum class bitpix
 
  template<>
  struct bitpix_type<bitpix::B8> {
-     typedef typename boost::int8_t underlying_type;
+     typedef typename boost::uint8_t underlying_type;
  };
 
  template<>
-- 
2.43.0


From b34679572d24a0b91fea3bd533a0794456323d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:42 +0000
Subject: [PATCH 13/32] fix: binary table fields keep bytes that look like
 blanks

---
 include/boost/astronomy/io/binary_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index b43218b..4d4b9d9 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -340,7 +340,7 @@ private:
             starting_offset = ending_offset;
             ending_offset = starting_offset + column_size(this->col_metadata_[current_column].TFORM());
 
-            this->tb_data[current_row][current_column++] = boost::algorithm::trim_copy(std::string(starting_offset, ending_offset));
+            this->tb_data[current_row][current_column++] = std::string(starting_offset, ending_offset);
             if (current_column % this->tfields_ == 0) {
                 current_row++;
                 current_column = 0;
-- 
2.43.0


From 03568e209758dce9916ad33d56e638d7ad9a215e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:42 +0000
Subject: [PATCH 14/32] fix: a unit ending on a record boundary is followed by
 the next record

---
 include/boost/astronomy/io/fits_stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/fits_stream.hpp b/include/boost/astronomy/io/fits_stream.hpp
index 9d41a05..dc10245 100644
--- a/include/boost/astronomy/io/fits_stream.hpp
+++ b/include/boost/astronomy/io/fits_stream.hpp
@@ -148,7 +148,7 @@ namespace boost {namespace astronomy {namespace io {
             std::size_t current_pos = this->file.tellg();
             std::size_t logical_record_size = 2880;
 
-            std::size_t offset = logical_record_size - (current_pos % logical_record_size);
+            std::size_t offset = (logical_record_size - (current_pos % logical_record_size)) % logical_record_size;
             std::size_t newpos = (current_pos + offset);
             return newpos;
         }
-- 
2.43.0


From cbee76aa82d5cd7acf438e4aa43dd735f68e7f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:42 +0000
Subject: [PATCH 15/32] fix: reading past the end of the file is reported

---
 include/boost/astronomy/io/fits_stream.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/astronomy/io/fits_stream.hpp b/include/boost/astronomy/io/fits_stream.hpp
index dc10245..8efa833 100644
--- a/include/boost/astronomy/io/fits_stream.hpp
+++ b/include/boost/astronomy/io/fits_stream.hpp
@@ -111,6 +111,9 @@ namespace boost {namespace astronomy {namespace io {
         std::string read(std::size_t num_bytes) {
             std::string data(num_bytes, ' ');
             this->file.read(&data[0], num_bytes);
+            if (!this->file.good()) {
+                throw file_reading_exception("Unexpected end of file");
+            }
             return data;
         }
 
-- 
2.43.0


From 908998ee4cc639a3779df7dcf21cafc9d49be9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:41 +0000
Subject: [PATCH 16/32] fix: card::set_value leaves a complete 80 character
 card

---
 include/boost/astronomy/io/card.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/astronomy/io/card.hpp b/include/boost/astronomy/io/card.hpp
index 634532a..783ae47 100644
--- a/include/boost/astronomy/io/card.hpp
+++ b/include/boost/astronomy/io/card.hpp
@@ -179,7 +179,9 @@ public:
             std::string key = this->keyword(true);
             this->card_.clear();
             this->card_.append(key);
+            this->card_.append("= ");
             this->card_.append(serialized_value);
+            this->card_.append(80 - this->card_.length(), ' ');
             card_cache = value;
         }
     }
-- 
2.43.0


From aeee58c3d0799d3297369a9c88c19fc3920696bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:47 +0000
Subject: [PATCH 17/32] fix: a recreated card forgets the value cached from its
 old content

---
 include/boost/astronomy/io/card.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/astronomy/io/card.hpp b/include/boost/astronomy/io/card.hpp
index 783ae47..25fa223 100644
--- a/include/boost/astronomy/io/card.hpp
+++ b/include/boost/astronomy/io/card.hpp
@@ -121,6 +121,7 @@ public:
         if (this->is_key_valid(key)) {
             std::string card_content = key + "  " + value;
             this->card_ = card_content;
+            card_cache = boost::blank();
             this->card_.append(80 - card_content.length(),' ');
             return;
         }
@@ -204,6 +205,7 @@ private:
     void create_card_impl(const std::string& key, const std::string& value, const std::string& comment="") {
 
         if (this->is_card_valid(key, value, comment)) {
+            card_cache = boost::blank();
 
             if (comment.empty()) {
                 this->card_ = this->format_keyword(key) + "= " + value;
-- 
2.43.0


From 9fe52ccb8f5824378c89abb8e134d98202ded9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:47 +0000
Subject: [PATCH 18/32] fix: a card value can be read as several types

---
 include/boost/astronomy/io/card.hpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/include/boost/astronomy/io/card.hpp b/include/boost/astronomy/io/card.hpp
index 25fa223..560e6aa 100644
--- a/include/boost/astronomy/io/card.hpp
+++ b/include/boost/astronomy/io/card.hpp
@@ -152,7 +152,7 @@ public:
     template <typename ReturnType>
     ReturnType value() const
     {
-        if (!value_cached()) {
+        if (boost::get<ReturnType>(&card_cache) == nullptr) {
             card_cache =value_imp(boost::type<ReturnType>());
         }
         return boost::get<ReturnType>(card_cache); 
@@ -193,12 +193,6 @@ public:
     const std::string& raw_card() { return card_; }
 
 private:
-    /**
-     * @brief Checks if the value is internally cached
-    */
-    bool value_cached() const { return card_cache.which() != 0; }
-
-
     /**
      * @brief Creates a card from key, value and comment supplied to the method
     */
-- 
2.43.0


From 51bb0df0a7ead8adf789e16e282c2eb14b348ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:47 +0000
Subject: [PATCH 19/32] fix: a commentary card has its keyword in columns 1-8
 whatever its length and rejects text that does not fit

---
 include/boost/astronomy/io/card.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/card.hpp b/include/boost/astronomy/io/card.hpp
index 560e6aa..2efecb4 100644
--- a/include/boost/astronomy/io/card.hpp
+++ b/include/boost/astronomy/io/card.hpp
@@ -118,8 +118,8 @@ public:
     */
     void create_commentary_card(std::string const& key, std::string const& value)
     {
-        if (this->is_key_valid(key)) {
-            std::string card_content = key + "  " + value;
+        if (this->is_key_valid(key) && value.length() <= 70) {
+            std::string card_content = this->format_keyword(key) + " " + value;
             this->card_ = card_content;
             card_cache = boost::blank();
             this->card_.append(80 - card_content.length(),' ');
-- 
2.43.0


From 727bbbd6af7dd8135eeaa2de715601a02e1c076d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:47 +0000
Subject: [PATCH 20/32] fix: complex card values are read back in the format
 they are written in

---
 include/boost/astronomy/io/default_card_policy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/default_card_policy.hpp b/include/boost/astronomy/io/default_card_policy.hpp
index afb075f..113dc31 100644
--- a/include/boost/astronomy/io/default_card_policy.hpp
+++ b/include/boost/astronomy/io/default_card_policy.hpp
@@ -132,7 +132,7 @@ public:
             std::string real_part(value.begin(), space_pos);
             std::string imag_part(space_pos + 1, value.end());
 
-            return std::complex<T>(parse_to<T>(real_part), parse_to<T>(imag_part));
+            return std::complex<T>(parse_to<T>(real_part), parse_to<T>(boost::trim_copy(imag_part)));
         }
         throw boost::astronomy::invalid_cast("Cannot convert to complex number");
     }
-- 
2.43.0


From fd7bcf08785432e9a9ed24ad4d42a6fcf25b9258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:47 +0000
Subject: [PATCH 21/32] fix: the value of a card ends at the comment separator,
 not at a slash inside a string

---
 .../boost/astronomy/io/default_card_policy.hpp    | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/default_card_policy.hpp b/include/boost/astronomy/io/default_card_policy.hpp
index 113dc31..6a19fe1 100644
--- a/include/boost/astronomy/io/default_card_policy.hpp
+++ b/include/boost/astronomy/io/default_card_policy.hpp
@@ -214,7 +214,20 @@ public:
      * @param[in] fits_card fits card from where the value needs to be extracted
     */
     std::string extract_value(const std::string& fits_card) const {
-        return fits_card.substr(9, fits_card.find('/') - 10);
+        // A '/' inside a quoted string belongs to the value
+        std::size_t comment_search_start = 9;
+        auto value_start = fits_card.find_first_not_of(' ', 9);
+        if (value_start != std::string::npos && fits_card[value_start] == '\'') {
+            auto value_end = fits_card.find('\'', value_start + 1);
+            if (value_end != std::string::npos) { comment_search_start = value_end + 1; }
+        }
+
+        auto comment_start = fits_card.find('/', comment_search_start);
+        if (comment_start == std::string::npos) { return fits_card.substr(9); }
+
+        // The blank before the comment separator is not part of the value
+        if (fits_card[comment_start - 1] == ' ') { comment_start--; }
+        return fits_card.substr(9, comment_start - 9);
     }
 
 private:
-- 
2.43.0


From 316377ee257f9c328391bb577e7787563f484c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:39 +0000
Subject: [PATCH 22/32] fix: ascii_table::write_to places each field at its
 TBCOL in rows of NAXIS1 characters

---
 include/boost/astronomy/io/ascii_table.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index 023711b..cd3e955 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -147,12 +147,13 @@ public:
 
         for (int row = 0; row < this->tb_data.size(); row++) {
 
-            std::string row_temp_buffer = "";
+            std::string row_temp_buffer(this->hdu_header.naxis(1), ' ');
 
             for (int col = 0; col < this->tb_data[row].size(); col++) {
-                std::string padding = std::string(this->column_size(this->col_metadata_[col].TFORM())-this->tb_data[row][col].length(),' ');
+                auto field_width = this->column_size(this->col_metadata_[col].TFORM());
+                std::string padding = std::string(field_width-this->tb_data[row][col].length(),' ');
                 std::string final_data = padding + this->tb_data[row][col];
-                row_temp_buffer += final_data;
+                row_temp_buffer.replace(this->col_metadata_[col].TBCOL() - 1, field_width, final_data);
             }
             file_writer.write(row_temp_buffer);
         }
-- 
2.43.0


From a98fecf468ea300508cf20383db65079de3823fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:39 +0000
Subject: [PATCH 23/32] fix: cached column views belong to one table and one
 set of data

---
 include/boost/astronomy/io/ascii_table.hpp  | 12 ++++++++++++
 include/boost/astronomy/io/binary_table.hpp | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index cd3e955..8627589 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -57,6 +57,17 @@ public:
     */
     basic_ascii_table() {}
 
+    /**
+     * @brief      Copies the table; the cached views refer to the table they were made from and are not copied
+    */
+    basic_ascii_table(basic_ascii_table const& other) : table_extension<CardPolicy>(other) {}
+
+    basic_ascii_table& operator=(basic_ascii_table const& other) {
+        table_extension<CardPolicy>::operator=(other);
+        this->cached_columns.clear();
+        return *this;
+    }
+
     /**
      * @brief      Constructs an ASCII Table object from header and data buffer
      * @param[in]  other Header part of ASCII table
@@ -71,6 +82,7 @@ public:
      * @param[in]  data_buffer Data of ASCII Table
     */
     void set_data(const std::string& data_buffer) {
+        this->cached_columns.clear();
         this->col_metadata_.clear();
         this->col_metadata_.resize(this->tfields_);
         set_ascii_table_info(data_buffer);
diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index 4d4b9d9..ecb6a7b 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -79,6 +79,17 @@ public:
     */
     basic_binary_table_extension() {}
 
+    /**
+     * @brief      Copies the table; the cached views refer to the table they were made from and are not copied
+    */
+    basic_binary_table_extension(basic_binary_table_extension const& other) : table_extension<CardPolicy>(other) {}
+
+    basic_binary_table_extension& operator=(basic_binary_table_extension const& other) {
+        table_extension<CardPolicy>::operator=(other);
+        this->cached_columns.clear();
+        return *this;
+    }
+
     
     /**
     * @brief      Constructs an Binary Table object from header and data buffer
@@ -142,6 +153,7 @@ public:
      * @param[in]  data_buffer Data of Binary Table
     */
     void set_data(const std::string& data_buffer) {
+        this->cached_columns.clear();
         this->col_metadata_.clear();
         this->col_metadata_.resize(this->tfields_);
         set_binary_table_info(data_buffer);
-- 
2.43.0


From 27c80a100fc826140c86da5f9af98b8f4e27d8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:39 +0000
Subject: [PATCH 24/32] fix: a column without TSCAL or TZERO card has the
 standard's defaults

---
 include/boost/astronomy/io/column.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/boost/astronomy/io/column.hpp b/include/boost/astronomy/io/column.hpp
index e374b12..186e4ed 100644
--- a/include/boost/astronomy/io/column.hpp
+++ b/include/boost/astronomy/io/column.hpp
@@ -39,7 +39,13 @@ public:
     /**
      * @brief   Constructs a standalone object of column structure
     */
-    column(){}
+    column() :
+        index_(-1),
+        start(-1),
+        scale(1),
+        zero(0),
+        total_elem_field(0)
+    {}
 
     /**
      * @details     Constructs a column object and sets the value for
@@ -56,7 +62,8 @@ public:
         zero(-1),
         display(""),
         dimension(""),
-        comment_("")
+        comment_(""),
+        total_elem_field(0)
     {}
 
     /**
@@ -72,7 +79,8 @@ public:
         zero(-1),
         display(""),
         dimension(""),
-        comment_("")
+        comment_(""),
+        total_elem_field(0)
     {}
 
     /**
-- 
2.43.0


From 53122f53f1243a4f882cdd649327bc2f9ba017b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:39 +0000
Subject: [PATCH 25/32] fix: files without the optional EXTEND and EXTNAME
 cards can be read

---
 include/boost/astronomy/io/extension_hdu.hpp |  8 +++++++-
 include/boost/astronomy/io/primary_hdu.hpp   | 11 +++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/boost/astronomy/io/extension_hdu.hpp b/include/boost/astronomy/io/extension_hdu.hpp
index a2f59f9..880ead9 100644
--- a/include/boost/astronomy/io/extension_hdu.hpp
+++ b/include/boost/astronomy/io/extension_hdu.hpp
@@ -12,6 +12,7 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #include <string>
 #include <vector>
 #include <cstddef>
+#include <stdexcept>
 
 #include <boost/astronomy/io/header.hpp>
 
@@ -58,7 +59,12 @@ private:
     void set_extension_info() {
         gcount = hdu_header.template value_of<int>("GCOUNT");
         pcount = hdu_header.template value_of<int>("PCOUNT");
-        extname = hdu_header.template value_of<std::string>("EXTNAME");
+
+        // EXTNAME is optional
+        try {
+            extname = hdu_header.template value_of<std::string>("EXTNAME");
+        }
+        catch (std::out_of_range&) {/*Do Nothing*/ }
     }
 };
 
diff --git a/include/boost/astronomy/io/primary_hdu.hpp b/include/boost/astronomy/io/primary_hdu.hpp
index de5da45..6611144 100644
--- a/include/boost/astronomy/io/primary_hdu.hpp
+++ b/include/boost/astronomy/io/primary_hdu.hpp
@@ -12,6 +12,7 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #include <string>
 #include <vector>
 #include <cstddef>
+#include <stdexcept>
 
 #include <boost/astronomy/io/header.hpp>
 #include <boost/astronomy/io/image.hpp>
@@ -49,7 +50,7 @@ public:
     /**
      * @brief   Default Constructor used to create a standalone object of primary_hdu
      */
-    basic_primary_hdu() {}
+    basic_primary_hdu() : simple(false), extend(false) {}
 
     /**
      * @brief Initializes the primary hdu object with header and data passed as argument
@@ -125,7 +126,13 @@ private:
     void init_primary_hdu() {
 
         simple = hdu_header.template value_of<bool>("SIMPLE");
-        extend = hdu_header.template value_of<bool>("EXTEND");
+
+        // EXTEND is optional
+        extend = false;
+        try {
+            extend = hdu_header.template value_of<bool>("EXTEND");
+        }
+        catch (std::out_of_range&) {/*Do Nothing*/ }
     }
 
     /**
-- 
2.43.0


From 0a4a476bed8fa060aa31b91cf128a0b79d29c9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:39 +0000
Subject: [PATCH 26/32] fix: fits_io::initialize drops the HDUs of the file
 read before

---
 include/boost/astronomy/io/fits_reader.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/astronomy/io/fits_reader.hpp b/include/boost/astronomy/io/fits_reader.hpp
index 67b9d43..896b419 100644
--- a/include/boost/astronomy/io/fits_reader.hpp
+++ b/include/boost/astronomy/io/fits_reader.hpp
@@ -80,6 +80,7 @@ namespace boost { namespace astronomy { namespace io {
         */
         void initialize(const std::string& filepath) {
             file_reader.set_file(filepath);
+            hdu_list.clear();
             hdus_control_block.clear();
             hdus_control_block.filepath = filepath;
         }
-- 
2.43.0


From e5b8940353017ba4fcdd3d374b13a86a16b2c8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:39 +0000
Subject: [PATCH 27/32] fix: an image_buffer without size has defined width and
 height

---
 include/boost/astronomy/io/image.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/image.hpp b/include/boost/astronomy/io/image.hpp
index 02ee8d3..56eb451 100644
--- a/include/boost/astronomy/io/image.hpp
+++ b/include/boost/astronomy/io/image.hpp
@@ -50,7 +50,7 @@ public:
     /**
      * @brief       Constructs an standalone object of image_buffer
     */
-    image_buffer() {}
+    image_buffer() : width_(0), height_(0) {}
 
     /**
      * @brief       Constructs an image_buffer object by allocating width*height space for buffer
-- 
2.43.0


From 4edb0404e44d8c2309f1edb2125040a436a8e053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:49 +0000
Subject: [PATCH 28/32] fix: ascii_converter::serialize works for types that
 are not numbers

---
 include/boost/astronomy/io/string_conversion_utility.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/string_conversion_utility.hpp b/include/boost/astronomy/io/string_conversion_utility.hpp
index 632d624..8b2abe2 100644
--- a/include/boost/astronomy/io/string_conversion_utility.hpp
+++ b/include/boost/astronomy/io/string_conversion_utility.hpp
@@ -11,6 +11,7 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #include <sstream>
 #include <limits>
 #include <boost/lexical_cast.hpp>
+#include <boost/hana/bool.hpp>
 #include <boost/hana/eval_if.hpp>
 #include <boost/astronomy/exception/fits_exception.hpp>
 
@@ -49,8 +50,8 @@ namespace boost{namespace astronomy{namespace io{
         template<typename T>
         static std::string serialize(T value) {
             return
-                boost::hana::eval_if(std::numeric_limits<T>::is_integer,
-                    [&value] {return std::to_string(value); },
+                boost::hana::eval_if(boost::hana::bool_c<std::numeric_limits<T>::is_integer>,
+                    [&value](auto _) {return std::to_string(_(value)); },
                     [&value](auto _) {
                         //to_string does not maintain the same rep for floating point numbers causing field size problems
                         //to_string dosent work for custom types as well(although here it is)
-- 
2.43.0


From 44d5524df2a692d000b342534c25fe637a0d304c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:12 +0000
Subject: [PATCH 29/32] fix: headers compare by their cards, const or not,
 whatever was asked of them before

---
 include/boost/astronomy/io/header.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/boost/astronomy/io/header.hpp b/include/boost/astronomy/io/header.hpp
index 76dcb7e..a7009bf 100644
--- a/include/boost/astronomy/io/header.hpp
+++ b/include/boost/astronomy/io/header.hpp
@@ -56,10 +56,9 @@ public:
    /**
      * @todo Take note of whether to make it templated or not
     */
-   bool operator == (const header& other) {
+   bool operator == (const header& other) const {
        return bitpix_value == other.bitpix_value &&
            this->naxis_ == other.naxis_ &&
-           this->hdu_name == other.hdu_name &&
            this->cards == other.cards &&
            this->key_index == other.key_index;
    }
@@ -236,8 +235,6 @@ public:
 
     }
 
-    friend bool operator == (const header<CardPolicy>& lhs, const header<CardPolicy>& rhs);
-
 };
 }}} //namespace boost::astronomy::io
 
-- 
2.43.0


From 9d4ddaf66ce2fa293951d45788dac68f85b512b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:12 +0000
Subject: [PATCH 30/32] fix: asking for the end of the file leaves the position
 known

---
 include/boost/astronomy/io/fits_stream.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/fits_stream.hpp b/include/boost/astronomy/io/fits_stream.hpp
index 8efa833..f42ff03 100644
--- a/include/boost/astronomy/io/fits_stream.hpp
+++ b/include/boost/astronomy/io/fits_stream.hpp
@@ -122,7 +122,11 @@ namespace boost {namespace astronomy {namespace io {
         */
         bool at_end() {
 
-            return (this->file.peek(), this->file.eof());
+            bool const end = (this->file.peek(), this->file.eof());
+            if (end && !this->file.fail()) {
+                this->file.clear(); // with eofbit set the position could not be asked for
+            }
+            return end;
         }
 
         /**
-- 
2.43.0


From f1dc7ca6b2004484a50dbac19edcac18de9e5491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:15 +0000
Subject: [PATCH 31/32] fix: the angular separation of parallel positions is a
 number

---
 .../boost/astronomy/coordinate/ref_frame/base_frame.hpp   | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp b/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
index 34cd652..d660796 100644
--- a/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
+++ b/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
@@ -10,6 +10,7 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 
 #include <tuple>
 #include <cmath>
+#include <algorithm>
 
 #include <boost/geometry/geometries/point.hpp>
 #include <boost/geometry/core/cs.hpp>
@@ -109,9 +110,12 @@ public:
     //!angular separation between two coordinates in radians
     bu::quantity<bu::si::plane_angle> get_angular_separation(base_frame const& other) const
     {
+        double cosine = (dot(this->data, other.get_data()) /
+            (magnitude(this->data) * magnitude(other.get_data()))).value();
+
+        //rounding can take the cosine of (nearly) parallel vectors out of the domain of acos
         return bu::quantity<bu::si::plane_angle>::from_value(
-            std::acos((dot(this->data, other.get_data()) /
-                (magnitude(this->data) * magnitude(other.get_data()))).value())
+            std::acos(std::max(std::min(cosine, 1.0), -1.0))
         );
     }
 
-- 
2.43.0


From 3104f61536a783f6c118e706db6450a5a9677e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:15 +0000
Subject: [PATCH 32/32] fix: coordinates extracted from a direction at the pole
 are numbers

---
 include/boost/astronomy/coordinate/utility/utility.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/coordinate/utility/utility.hpp b/include/boost/astronomy/coordinate/utility/utility.hpp
index 4b6454f..225284a 100644
--- a/include/boost/astronomy/coordinate/utility/utility.hpp
+++ b/include/boost/astronomy/coordinate/utility/utility.hpp
@@ -11,6 +11,7 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #include <iostream>
 #include <utility>
 #include <cmath>
+#include <algorithm>
 
 #include <boost/numeric/ublas/io.hpp>
 #include <boost/numeric/ublas/matrix.hpp>
@@ -296,7 +297,8 @@ struct extract_coordinates{
     double p = column_vector(2,0);
 
     theta = atan2(n,m);
-    phi = asin(p);
+    //rounding can take the third component of a unit vector out of the domain of asin
+    phi = asin(std::max(std::min(p, 1.0), -1.0));
   }
 
   pair<angle_radian,angle_radian> get_coordinates() const{
-- 
2.43.0

