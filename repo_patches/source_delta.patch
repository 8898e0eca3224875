From 2edb3be1e6a61a629b0a93feefc9b7c4418863b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:29 +0000
Subject: [PATCH 001/146] fix: orient faces correctly in corner-point grids
 with depths decreasing along K

Cells of such grids got negative volumes and inward normals because the
reversal of the face nodes was made to depend on the sign of the depths,
which is_lefthanded() has taken into account already.
---
 opm/core/grid/cpgpreprocess/preprocess.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/opm/core/grid/cpgpreprocess/preprocess.c b/opm/core/grid/cpgpreprocess/preprocess.c
index 3b465c2..ad8a083 100644
--- a/opm/core/grid/cpgpreprocess/preprocess.c
+++ b/opm/core/grid/cpgpreprocess/preprocess.c
@@ -928,12 +928,14 @@ void process_grdecl(const struct grdecl   *in,
             out->node_coordinates[i] *= sign;
     }
 
-    /* If an odd number of coordinate reflections were applied, the
-     * processing routines--especially facetopology()--will produce
-     * node orderings that lead to normals pointing from 2 to 1.
-     * Reverse nodes to reestablish expected normal direction (and
-     * positive cell volumes). */
-    if (left_handed ^ (sign == -1)) {
+    /* The node orderings produced above depend on the logical (I,J,K)
+     * directions only, and lead to normals that point from 2 to 1 when
+     * those directions form a left-handed system in the coordinates of
+     * the input.  Note that is_lefthanded() already accounts for depths
+     * that decrease in the K direction (i.e., sign == -1).  Reverse
+     * nodes to reestablish expected normal direction (and positive cell
+     * volumes). */
+    if (left_handed) {
         reverse_face_nodes(out);
     }
 }
-- 
2.43.0


From 30640622da2005deb6e9a639a07ef5a17f30d970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:22 +0000
Subject: [PATCH 002/146] fix: evaluate inclined pillars at the right depth
 when depths decrease along K

Node depths were negated during processing but the pillar end points were
not, so (x,y) of all nodes was computed at the mirrored depth.
---
 opm/core/grid/cpgpreprocess/preprocess.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/opm/core/grid/cpgpreprocess/preprocess.c b/opm/core/grid/cpgpreprocess/preprocess.c
index ad8a083..04402b4 100644
--- a/opm/core/grid/cpgpreprocess/preprocess.c
+++ b/opm/core/grid/cpgpreprocess/preprocess.c
@@ -557,6 +557,23 @@ copy_and_permute_zcorn(int nx, int ny, int nz, const double *in,
     return out;
 }
 
+/* ------------------------------------------------------------------ */
+static double*
+copy_coord(int nx, int ny, const double *in, double sign, double *out)
+/* ------------------------------------------------------------------ */
+{
+    int i;
+
+    /* The depths of the pillar end points must use the same sign as the
+     * corner-point depths, lest (x,y) on inclined pillars be evaluated
+     * at the wrong depth. */
+    for (i = 0; i < 6 * (nx + 1) * (ny + 1); i++) {
+        out[i] = ((i % 3) == 2) ? sign * in[i] : in[i];
+    }
+
+    return out;
+}
+
 /* ------------------------------------------------------------------ */
 static int
 get_zcorn_sign(int nx, int ny, int nz, const int *actnum,
@@ -772,6 +789,7 @@ void process_grdecl(const struct grdecl   *in,
     int    *global_cell_index;
 
     double *zcorn;
+    double *coord;
 
     const size_t BIGNUM = 64;
     const int    nx = in->dims[0];
@@ -836,7 +854,8 @@ void process_grdecl(const struct grdecl   *in,
     sign      = get_zcorn_sign(nx, ny, nz, in->actnum, in->zcorn, &error);
     g.zcorn   = copy_and_permute_zcorn(nx, ny, nz, in->zcorn, sign, zcorn);
 
-    g.coord   = in->coord;
+    coord     = malloc (6 * ((size_t) (nx + 1)) * ((size_t) (ny + 1)) * sizeof *coord);
+    g.coord   = copy_coord(nx, ny, in->coord, sign, coord);
 
 
     /* allocate space for cornerpoint numbers plus INT_MIN (INT_MAX)
@@ -845,6 +864,7 @@ void process_grdecl(const struct grdecl   *in,
 
     finduniquepoints(&g, plist, tolerance, out);
 
+    free (coord);
     free (zcorn);
     free (actnum);
 
-- 
2.43.0


From ef71fec88a547ea6afa1c0d20948083422976f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:51 +0000
Subject: [PATCH 003/146] fix: reject corner-point decks whose COORD, ZCORN or
 ACTNUM count does not match the grid size

---
 opm/core/io/eclipse/EclipseGridParser.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/opm/core/io/eclipse/EclipseGridParser.cpp b/opm/core/io/eclipse/EclipseGridParser.cpp
index 8a1905e..238baa6 100644
--- a/opm/core/io/eclipse/EclipseGridParser.cpp
+++ b/opm/core/io/eclipse/EclipseGridParser.cpp
@@ -854,6 +854,22 @@ struct grdecl EclipseGridParser::get_grdecl() const {
     THROW("Deck must have either DIMENS or SPECGRID.");
   }
   
+  // Check that the amount of data is consistent with DIMENS/SPECGRID.
+  if (dims.size() != 3 || dims[0] < 1 || dims[1] < 1 || dims[2] < 1) {
+    THROW("DIMENS or SPECGRID must give three positive numbers.");
+  }
+  const std::size_t num_pillars = (std::size_t(dims[0]) + 1)*(std::size_t(dims[1]) + 1);
+  const std::size_t num_cells = std::size_t(dims[0])*dims[1]*dims[2];
+  if (coord.size() != 6*num_pillars) {
+    THROW("Number of COORD data points do not match DIMENS or SPECGRID.");
+  }
+  if (zcorn.size() != 8*num_cells) {
+    THROW("Number of ZCORN data points do not match DIMENS or SPECGRID.");
+  }
+  if (actnum != NULL && getIntegerValue("ACTNUM").size() != num_cells) {
+    THROW("Number of ACTNUM data points do not match DIMENS or SPECGRID.");
+  }
+
   // Collect in input struct for preprocessing.
   
   grdecl.zcorn = &zcorn[0];
-- 
2.43.0


From 6756605cf8f4b57d9531bb0141cbddd1d1493956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 004/146] fix: accept SPECGRID records that end after the grid
 dimensions

The slash was consumed while reading the integers, so the reader took the
following keyword for the coordinate type.
---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 9041b28..150757e 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -91,6 +91,9 @@ struct SPECGRID : public SpecialBase
         int nd = std::min(nread, ndim);
         copy(data.begin(), data.begin()+nd, &dimensions[0]);
         numres = data[ndim];
+        if (nread < ndim + 1) {
+            return;     // The record ended early, its slash has been read.
+        }
         std::string candidate;
         is >> candidate;
         if (candidate == "/") {
-- 
2.43.0


From 9c9a2a212308491e37013483f9a6fd4f8779354a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 005/146] fix: do not write past the end of a record for too
 large repeat counts

---
 opm/core/io/eclipse/EclipseGridParserHelpers.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index a476cd1..2bafa6b 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -162,6 +162,9 @@ namespace
                         num_values += multiplier;  // Use default value(s)
                     } else {
                         is >> candidate;         // Use candidate 'multipler' times
+                        if (num_values + multiplier > int(data.size())) {
+                            THROW("Repeat count " << multiplier << " exceeds the number of items in the record.");
+                        }
                         for (int i=0; i<multiplier; ++i, ++num_values) {
                             data[num_values] = candidate;
                         }
-- 
2.43.0


From 6c3dc3769310792fb1243f331f81b9b4f9ea0179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 006/146] fix: forget ignored keywords, start date and reading
 mode of a previous deck

EclipseGridParser::read() overwrites any previous data, but kept e.g. the unit
system keyword of the deck read before.
---
 opm/core/io/eclipse/EclipseGridParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/io/eclipse/EclipseGridParser.cpp b/opm/core/io/eclipse/EclipseGridParser.cpp
index 238baa6..468e8e8 100644
--- a/opm/core/io/eclipse/EclipseGridParser.cpp
+++ b/opm/core/io/eclipse/EclipseGridParser.cpp
@@ -319,7 +319,10 @@ void EclipseGridParser::read(istream& is, bool convert_to_SI)
     integer_field_map_.clear();
     floating_field_map_.clear();
     special_field_by_epoch_.clear();
+    ignored_fields_.clear();
     special_field_by_epoch_.push_back(SpecialMap());
+    current_reading_mode_ = Regular;
+    start_date_ = boost::gregorian::date(boost::date_time::not_a_date_time);
     current_time_days_ = 0.0;
     current_epoch_ = 0;
 
-- 
2.43.0


From 3af52915da72d7ba0cc46ead355e5d7100b53c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 007/146] fix: read the line after TITLE as the title

The title was skipped and the line following it was read instead, even if that
was a keyword.
---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 150757e..aeb556e 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -266,7 +266,7 @@ struct TITLE : public SpecialBase
     virtual std::string name() const
     { return std::string("TITLE"); }
     virtual void read(std::istream& is)
-    { is >> ignoreLine; std::getline(is, title); }
+    { is >> ignoreWhitespace; std::getline(is, title); }
     virtual void write(std::ostream& os) const
     { os << name() << '\n' << title << '\n'; }
     virtual void convertToSI(const EclipseUnits&)
-- 
2.43.0


From 5db4a7de2c926a89e3be060b437a78647aaffb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 008/146] fix: convert the reservoir rate limit of GCONINJE to
 SI units

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index aeb556e..67a6400 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -1088,6 +1088,7 @@ struct GCONINJE : public SpecialBase
             } else {
                 gconinje[i].surface_flow_max_rate_ *= units.liqvol_s/units.time;
             }
+            gconinje[i].resv_flow_max_rate_ *= units.liqvol_r/units.time;
         }
     }
 };
-- 
2.43.0


From 15a9f1a440ae2caaeb207e9a67f59d06168a30b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:23 +0000
Subject: [PATCH 009/146] fix: count defaulted items before the reservoir rate
 of GCONPROD correctly

n* was taken as n+1 items, so the reservoir rate could be missed.
---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 67a6400..49ae414 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -1290,10 +1290,7 @@ struct GCONPROD : public SpecialBase
                         int num_defaulted;
                         std::string num_defaulted_str = ignored_value.substr(0, ignored_value.size()-1);
                         std::istringstream(num_defaulted_str) >> num_defaulted;
-                        read_ignored += num_defaulted;
-                        if (read_ignored >= to_read) {
-                            break;
-                        }
+                        read_ignored += num_defaulted - 1; // The loop adds one
                     } else if(ignored_value[0] == '/') {
                         is.putback('/');
                         break;
-- 
2.43.0


From 8487f1c16a53f8afcc13378374b934be56637334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:23 +0000
Subject: [PATCH 010/146] fix: do not index empty strings when looking for
 defaulted items

---
 opm/core/io/eclipse/EclipseGridParserHelpers.hpp | 6 ++++++
 opm/core/io/eclipse/SpecialEclipseFields.hpp     | 8 ++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index 2bafa6b..c744da7 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -88,6 +88,12 @@ namespace
         return string_candidate.substr(beg, len);
     }
 
+    // True for items of the form n*
+    inline bool isDefaulted(const std::string& item)
+    {
+        return !item.empty() && item[item.size() - 1] == '*';
+    }
+
     // Reads data until '/' or an error is encountered.
     template<typename T>
     inline void readVectorData(std::istream& is, std::vector<T>& data)
diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 49ae414..e4f0748 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -1261,7 +1261,7 @@ struct GCONPROD : public SpecialBase
             GconprodLine gconprod_line;
             gconprod_line.group_ = groupname;
             gconprod_line.control_mode_ = readString(is);
-            if (gconprod_line.control_mode_[gconprod_line.control_mode_.size() - 1] == '*') 
+            if (isDefaulted(gconprod_line.control_mode_)) 
             {
                 gconprod_line.control_mode_ = "NONE";
             }
@@ -1284,7 +1284,7 @@ struct GCONPROD : public SpecialBase
                 int to_read = 6;
                 for (; read_ignored < to_read; ++read_ignored) {
                     std::string ignored_value = readString(is);
-                    if (ignored_value[ignored_value.size()-1]=='*') {
+                    if (isDefaulted(ignored_value)) {
                         // we've got defaulted argument, increment
                         
                         int num_defaulted;
@@ -1299,7 +1299,7 @@ struct GCONPROD : public SpecialBase
                 if ( read_ignored <= to_read) {
                     // Not defaulted, we can read
                     std::string reservoir_volume = readString(is);
-                    if (reservoir_volume[reservoir_volume.size()-1] == '*') {
+                    if (isDefaulted(reservoir_volume)) {
                         // Defaulted, we're not doing anything
                     } else if(reservoir_volume[0] == '/') {
                         is.putback('/');
@@ -1398,7 +1398,7 @@ struct WGRUPCON : public SpecialBase
             WgrupconLine wgrupcon_line;
             wgrupcon_line.well_ = wname;
             std::string available = readString(is);
-            if (available[available.size()-1] == '*') 
+            if (isDefaulted(available)) 
             {
                 available = "YES";
             }
-- 
2.43.0


From 81e498935dc137e8a624788eab93a61bb374c163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 011/146] fix: skip comments before the end of a record list
 and reject unterminated lists

A comment line just before the closing slash made the slash a well name, and a
list cut off by the end of the file was accepted with an empty extra line (or
never finished, in FAULTS and MULTFLT).
---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 174 +++++++++++--------
 1 file changed, 105 insertions(+), 69 deletions(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index e4f0748..208bcbf 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -149,17 +149,20 @@ struct FAULTS : public SpecialBase
 
     virtual void read(std::istream& is)
     {
-        while(is) {
+        while (true) {
             std::string fltname;
             is >> fltname;
+            while (is && fltname.find("--") == 0) {
+                // This line is a comment
+                is >> ignoreLine >> fltname;
+            }
+            if (!is) {
+                THROW("Reached end of file reading " << name());
+            }
             if (fltname[0] == '/') {
                 is >> ignoreLine;
                 break;
             }
-            while (fltname.find("--") == 0) {
-                // This line is a comment
-                is >> ignoreLine >> fltname;
-            }
             FaultSegment fault_segment;
             fault_segment.ijk_coord.resize(6);
             fault_segment.fault_name = fltname;
@@ -219,17 +222,20 @@ struct MULTFLT : public SpecialBase
 
     virtual void read(std::istream& is)
     {
-        while(is) {
+        while (true) {
             std::string fltname;
             is >> fltname;
+            while (is && fltname.find("--") == 0) {
+                // This line is a comment
+                is >> ignoreLine >> fltname;
+            }
+            if (!is) {
+                THROW("Reached end of file reading " << name());
+            }
             if (fltname[0] == '/') {
                 is >> ignoreLine;
                 break;
             }
-            while (fltname == "--") {
-                // This line is a comment
-                is >> ignoreLine >> fltname;
-            }
             MultfltLine multflt_line;
             multflt_line.fault_name = fltname;
             std::vector<double> data(2,1.0);
@@ -807,17 +813,20 @@ struct WELSPECS : public SpecialBase
 
     virtual void read(std::istream& is)
     {
-        while(is) {
-            std::string wellname = readString(is); 
-            if (wellname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
+        while (true) {
+            std::string wellname = readString(is);
             while (wellname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 wellname = readString(is);
             }
+            if (!is) {
+                THROW("Reached end of file reading " << name());
+            }
+            if (wellname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             WelspecsLine welspecs_line;
             welspecs_line.name_ = wellname;
             welspecs_line.group_ = readString(is);
@@ -929,17 +938,20 @@ struct COMPDAT : public SpecialBase
 
     virtual void read(std::istream& is)
     {
-        while(is) {
-            std::string wellname = readString(is); 
-            if (wellname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
+        while (true) {
+            std::string wellname = readString(is);
             while (wellname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 wellname = readString(is);
             }
+            if (!is) {
+                THROW("Reached end of file reading " << name());
+            }
+            if (wellname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             CompdatLine compdat_line;
             compdat_line.well_ = wellname;
             readDefaultedVectorData(is, compdat_line.grid_ind_, 4);
@@ -1034,17 +1046,20 @@ struct GCONINJE : public SpecialBase
 
     virtual void read(std::istream& is)
     {
-        while(is) {
-            std::string groupname = readString(is); 
-            if (groupname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
+        while (true) {
+            std::string groupname = readString(is);
             while (groupname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 groupname = readString(is);
             }
+            if (!is) {
+                THROW("Reached end of file reading " << name());
+            }
+            if (groupname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             GconinjeLine gconinje_line;
             gconinje_line.group_ = groupname;
             gconinje_line.injector_type_ = readString(is);
@@ -1138,17 +1153,20 @@ struct WCONINJE : public SpecialBase
 
     virtual void read(std::istream& is)
     {
-        while(is) {
-            std::string wellname = readString(is); 
-            if (wellname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
+        while (true) {
+            std::string wellname = readString(is);
             while (wellname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 wellname = readString(is);
             }
+            if (!is) {
+                THROW("Reached end of file reading " << name());
+            }
+            if (wellname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             WconinjeLine wconinje_line;
             wconinje_line.well_ = wellname;
             wconinje_line.injector_type_ = readString(is);
@@ -1247,17 +1265,20 @@ struct GCONPROD : public SpecialBase
 
     virtual void read(std::istream& is)
     {
-        while(is) {
-            std::string groupname = readString(is); 
-            if (groupname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
+        while (true) {
+            std::string groupname = readString(is);
             while (groupname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 groupname = readString(is);
             }
+            if (!is) {
+                THROW("Reached end of file reading " << name());
+            }
+            if (groupname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             GconprodLine gconprod_line;
             gconprod_line.group_ = groupname;
             gconprod_line.control_mode_ = readString(is);
@@ -1384,17 +1405,20 @@ struct WGRUPCON : public SpecialBase
 
     virtual void read(std::istream& is)
     {
-        while(is) {
-            std::string wname = readString(is); 
-            if (wname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
+        while (true) {
+            std::string wname = readString(is);
             while (wname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 wname = readString(is);
             }
+            if (!is) {
+                THROW("Reached end of file reading " << name());
+            }
+            if (wname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             WgrupconLine wgrupcon_line;
             wgrupcon_line.well_ = wname;
             std::string available = readString(is);
@@ -1495,17 +1519,20 @@ struct WCONPROD : public SpecialBase
 
     virtual void read(std::istream& is)
     {
-        while(is) {
-            std::string wellname = readString(is); 
-            if (wellname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
+        while (true) {
+            std::string wellname = readString(is);
             while (wellname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 wellname = readString(is);
             }
+            if (!is) {
+                THROW("Reached end of file reading " << name());
+            }
+            if (wellname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             WconprodLine wconprod_line;
             wconprod_line.well_ = wellname;
             wconprod_line.open_shut_flag_ = readString(is);
@@ -1604,17 +1631,20 @@ struct WELTARG : public SpecialBase
 
     virtual void read(std::istream& is)
     {
-        while(is) {
-            std::string wellname = readString(is); 
-            if (wellname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
+        while (true) {
+            std::string wellname = readString(is);
             while (wellname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 wellname = readString(is);
             }
+            if (!is) {
+                THROW("Reached end of file reading " << name());
+            }
+            if (wellname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             WeltargLine weltarg_line;
             weltarg_line.well_ = wellname;
             weltarg_line.control_change_ = readString(is);
@@ -1685,17 +1715,20 @@ struct WELOPEN : public SpecialBase
 
     virtual void read(std::istream& is)
     {
-        while(is) {
-            std::string wellname = readString(is); 
-            if (wellname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
+        while (true) {
+            std::string wellname = readString(is);
             while (wellname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 wellname = readString(is);
             }
+            if (!is) {
+                THROW("Reached end of file reading " << name());
+            }
+            if (wellname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             WelopenLine welopen_line;
             welopen_line.well_ = wellname;
             welopen_line.openshutflag_ = readString(is);
@@ -2152,17 +2185,20 @@ struct WPOLYMER : public SpecialBase
 
     virtual void read(std::istream& is)
     {
-        while(is) {
+        while (true) {
             std::string wellname = readString(is);
-            if (wellname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
             while (wellname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 wellname = readString(is);
             }
+            if (!is) {
+                THROW("Reached end of file reading " << name());
+            }
+            if (wellname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             WpolymerLine wpolymer_line;
             wpolymer_line.well_ = wellname;
             is >> wpolymer_line.polymer_concentration_;    
-- 
2.43.0


From a8ee33d460c61fad1ff5717376eb8fc750ef5654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 012/146] fix: keep WGRUPCON records that end before the phase

Such a record was dropped, together with all records after it.
---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 208bcbf..84001ee 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -1431,11 +1431,17 @@ struct WGRUPCON : public SpecialBase
             const int num_to_read = 1;
             int num_read = readDefaultedVectorData(is, double_data, num_to_read);
             wgrupcon_line.guide_rate_ = double_data[0];
+            if (num_read < num_to_read) {
+                // The record ended early, its slash has been read.
+                wgrupcon.push_back(wgrupcon_line);
+                continue;
+            }
             
             std::string phase = readString(is); 
             if (phase[0] == '/') {
                 is >> ignoreLine;
-                break;
+                wgrupcon.push_back(wgrupcon_line);
+                continue;
             }
             while (phase.find("--") == 0) {
                 // This line is a comment
-- 
2.43.0


From 7547631610f9903c48b1ab3772663c71d462cb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 013/146] fix: read COMPDAT records that end early

The reader went on to take items from the next record.
---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 84001ee..6bfb5a0 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -954,11 +954,24 @@ struct COMPDAT : public SpecialBase
             }
             CompdatLine compdat_line;
             compdat_line.well_ = wellname;
-            readDefaultedVectorData(is, compdat_line.grid_ind_, 4);
-            compdat_line.open_shut_flag_ = readString(is);
+            if (readDefaultedVectorData(is, compdat_line.grid_ind_, 4) < 4) {
+                THROW("Too few items in COMPDAT record for well " << wellname);
+            }
+            std::string flag = readString(is);
+            if (flag[0] == '/') {
+                is >> ignoreLine;
+                compdat.push_back(compdat_line);
+                continue;
+            }
+            compdat_line.open_shut_flag_ = flag;
             std::vector<int> int_data(1,-1);
-            readDefaultedVectorData(is, int_data, 1);
+            const int num_int_read = readDefaultedVectorData(is, int_data, 1);
             compdat_line.sat_table_number_ = int_data[0];
+            if (num_int_read < 1) {
+                // The record ended early, its slash has been read.
+                compdat.push_back(compdat_line);
+                continue;
+            }
             std::vector<double> double_data(2, 0.0);
             int num_to_read = 2;
             int num_read = readDefaultedVectorData(is, double_data, num_to_read);
-- 
2.43.0


From 830b95033b0d54d91281dad610cf47746c3c8448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 014/146] fix: reject WELSPECS records that are too short

The reader went on to take items from the next record.
---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 6bfb5a0..2cd9f23 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -831,11 +831,13 @@ struct WELSPECS : public SpecialBase
             welspecs_line.name_ = wellname;
             welspecs_line.group_ = readString(is);
             std::vector<int> int_data(2,1);
-            readDefaultedVectorData(is, int_data, 2);
+            const int num_int_read = readDefaultedVectorData(is, int_data, 2);
             welspecs_line.I_ = int_data[0];
             welspecs_line.J_ = int_data[1];
             std::vector<double> double_data(1,-1.0);
-            readDefaultedVectorData(is, double_data, 1);
+            if (num_int_read < 2 || readDefaultedVectorData(is, double_data, 1) < 1) {
+                THROW("Too few items in WELSPECS record for well " << wellname);
+            }
             welspecs_line.datum_depth_BHP_ = double_data[0];
             welspecs_line.pref_phase_ = readString(is);
 
-- 
2.43.0


From 54a5d4c0a41a4bd87ed0553c824b21001c8a5472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 015/146] fix: reject incomplete records and rows in property
 tables

Tables with too few items were read, and later accessed, out of bounds, and
incomplete rows were dropped silently.
---
 .../io/eclipse/EclipseGridParserHelpers.hpp    |  9 +++++++++
 opm/core/io/eclipse/SpecialEclipseFields.hpp   | 18 ++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index c744da7..6ba1602 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -315,6 +315,9 @@ namespace
 	while (!is.eof()) {
 	    record.clear();
 	    readVectorData(is, record);
+	    if (record.size() < 4 || (record.size() - 1) % 3 != 0) {
+		THROW("Incomplete record in " << field_name << " table.");
+	    }
 	    table.push_back(record);
 	    while (!is.eof()) {
 		is >> ignoreWhitespace;
@@ -363,6 +366,9 @@ namespace
 	while (!is.eof()) {
 	    record.clear();
 	    readVectorData(is, record);
+	    if (record.size() % ncol != 0) {
+		THROW("Incomplete row in " << field_name << " table.");
+	    }
 	    const int rec_size = record.size()/ncol;
 	    for (int k=0; k<ncol; ++k) {
 		table[k].resize(rec_size);
@@ -440,6 +446,9 @@ namespace
 	while (!is.eof()) {
 	    record.clear();
 	    readRelPermTable(is, record);
+	    if (record.size() % ncol != 0) {
+		THROW("Incomplete row in " << field_name << " table.");
+	    }
 	    const int rec_size = record.size()/ncol;
 	    for (int k=0; k<ncol; ++k) {
 		table[k].resize(rec_size);
diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 2cd9f23..2fa19ee 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -595,6 +595,9 @@ struct PVTW : public SpecialBase
             if (pvtw.size() == 4) {
                 pvtw.push_back(0.0); // Not used by frontsim
             }
+            if (pvtw.size() < 5) {
+                THROW("Too few items in " << name() << " record.");
+            }
             pvtw_.push_back(pvtw);
 
             int action = next_action(is); // 0:continue  1:return  2:throw
@@ -642,6 +645,9 @@ struct ROCK : public SpecialBase
         while (!is.eof()) {
             std::vector<double> rock;
             readVectorData(is, rock);
+            if (rock.size() < 2) {
+                THROW("Too few items in ROCK record.");
+            }
             rock_compressibilities_.push_back(rock);
 
             int action = next_action(is); // 0:continue  1:return  2:throw
@@ -1890,6 +1896,9 @@ struct PVCDO : public SpecialBase
             if (pvcdo.size() == 4) {
                 pvcdo.push_back(0.0);
             }
+            if (pvcdo.size() < 5) {
+                THROW("Too few items in " << name() << " record.");
+            }
             pvcdo_.push_back(pvcdo);
 
             int action = next_action(is); // 0:continue  1:return  2:throw
@@ -2022,6 +2031,9 @@ struct PLYVISC : public SpecialBase
         // Note. This function assumes that NTPVT = 1, and reads only one table.
         std::vector<double> plyvisc;
         readVectorData(is, plyvisc);
+        if (plyvisc.size() % 2 != 0) {
+            THROW("Incomplete row in " << name() << " table.");
+        }
         for (int i=0; i<(int)plyvisc.size(); i+=2) {
             concentration_.push_back(plyvisc[i]);
             factor_.push_back(plyvisc[i+1]);
@@ -2093,6 +2105,9 @@ struct PLYADS : public SpecialBase
         // Note. This function assumes that NTSFUN = 1, and reads only one table.
         std::vector<double> plyads;
         readVectorData(is, plyads);
+        if (plyads.size() % 2 != 0) {
+            THROW("Incomplete row in " << name() << " table.");
+        }
         for (int i=0; i<(int)plyads.size(); i+=2) {
             local_concentration_.push_back(plyads[i]);
             adsorbed_concentration_.push_back(plyads[i+1]);
@@ -2128,6 +2143,9 @@ struct PLYMAX : public SpecialBase
         // Note. This function assumes that NTMISC = 1, and reads only one line.
         plymax_.resize(2);
         readVectorData(is, plymax_);
+        if (plymax_.size() < 2) {
+            THROW("Too few items in PLYMAX record.");
+        }
     }
 
     virtual void write(std::ostream& os) const
-- 
2.43.0


From b30bca95957b6221d7368890c504437487deae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 016/146] fix: do not take a slash within a comment for the end
 of a record

---
 opm/core/io/eclipse/EclipseGridParserHelpers.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index 6ba1602..d1734d1 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -58,7 +58,12 @@ namespace
 
     inline std::istream& ignoreSlashLine(std::istream& is)
     {
-	is.ignore(std::numeric_limits<int>::max(), '/');
+	char c;
+	while (is.get(c) && c != '/') {
+	    if (c == '-' && is.peek() == int('-')) {
+		is >> ignoreLine;  // A comment may contain slashes
+	    }
+	}
 	is.ignore(std::numeric_limits<int>::max(), '\n');
 	return is;
     }
-- 
2.43.0


From db66d0a6fdd9b03c758f1fc254c7ed77a6f0b432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:51 +0000
Subject: [PATCH 017/146] fix: fill in defaulted table columns that have a
 single value

The interpolation read past the end of the one-element table.
---
 opm/core/io/eclipse/EclipseGridParserHelpers.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index d1734d1..3b8e186 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -427,6 +427,11 @@ namespace
                     for (int i=0; i<int(indx.size()); ++i) {
                         table[k][indx[i]] = defaultOut;
                     }
+                } else if (xv.size() == 1) {
+                    // A single value is given, there is nothing to interpolate.
+                    for (int i=0; i<int(indx.size()); ++i) {
+                        table[k][indx[i]] = yv[0];
+                    }
                 } else if (defaultInterpolation) {
                     // Interpolate
                     for (int i=0; i<int(indx.size()); ++i) {
-- 
2.43.0


From 951795b2d4e7846ec9612a3474fcd288dd12a3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 018/146] fix: accept decks whose last line lacks a newline

They were rejected if the last record was a SWOF or SGOF table or one with
defaulted items.
---
 opm/core/io/eclipse/EclipseGridParserHelpers.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index 3b8e186..c19814f 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -52,7 +52,9 @@ namespace
 
     inline std::istream& ignoreLine(std::istream& is)
     {
-	is.ignore(std::numeric_limits<int>::max(), '\n');
+	if (!is.eof()) {    // The last line may lack a newline
+	    is.ignore(std::numeric_limits<int>::max(), '\n');
+	}
 	return is;
     }
 
-- 
2.43.0


From 0fac6d8c19bee8e7388091badab4d1f05d4b9e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:54 +0000
Subject: [PATCH 019/146] fix: reject decks that end right after a keyword that
 needs data

The keyword was reported as present, with empty tables.
---
 opm/core/io/eclipse/EclipseGridParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/io/eclipse/EclipseGridParser.cpp b/opm/core/io/eclipse/EclipseGridParser.cpp
index 468e8e8..2e188f5 100644
--- a/opm/core/io/eclipse/EclipseGridParser.cpp
+++ b/opm/core/io/eclipse/EclipseGridParser.cpp
@@ -732,6 +732,9 @@ EclipseGridParser::createSpecialField(std::istream& is,
     std::tr1::shared_ptr<SpecialBase> spec_ptr
         = Factory<SpecialBase>::createObject(fieldname);
     is >> ignoreWhitespace;
+    if (!is) {
+        THROW("Reached end of file reading " << fieldname);
+    }
     spec_ptr->read(is);
     return spec_ptr;
 }
-- 
2.43.0


From ab4e5633538020324de93df1d246fd9e56341ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:52 +0000
Subject: [PATCH 020/146] fix: reject negative repeat counts

They made the following items overwrite memory before the record.
---
 opm/core/io/eclipse/EclipseGridParserHelpers.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index c19814f..55ac41d 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -171,6 +171,9 @@ namespace
                 if (is.peek() == int('*')) {
                     is.ignore(); // ignore the '*'
                     int multiplier = (int)candidate;
+                    if (multiplier < 0) {
+                        THROW("Negative repeat count " << multiplier);
+                    }
                     if (ct.is(std::ctype_base::space, is.peek())) {
                         num_values += multiplier;  // Use default value(s)
                     } else {
-- 
2.43.0


From 875d5d117095e704153056a9db145e1e860aa829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:25 +0000
Subject: [PATCH 021/146] fix: skip comments in GRUPTREE and reject a tree that
 is not closed

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 2fa19ee..8f9c05a 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -303,8 +303,20 @@ struct GRUPTREE : public SpecialBase {
     }
 
     virtual void read(std::istream & is) {
-        while (!is.eof()) {
+        while (true) {
             std::string child = readString(is);
+            while (child.find("--") == 0) {
+                // This line is a comment
+                is >> ignoreLine;
+                child = readString(is);
+            }
+            if (!is) {
+                THROW("Reached end of file reading " << name());
+            }
+            if (child[0] == '/') {
+                is >> ignoreLine;
+                return;
+            }
             is >> ignoreWhitespace;
             std::string parent = readString(is);
 
@@ -312,11 +324,6 @@ struct GRUPTREE : public SpecialBase {
             tree[child] = parent;
             
             is >> ignoreSlashLine;
-            is >> ignoreWhitespace;
-            if(is.peek() == int('/')) {
-                is >> ignoreSlashLine;
-                return;
-            }
         }
     }
 
-- 
2.43.0


From 3aae4ba1b649799341cecd0c38cb332bead70c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:24 +0000
Subject: [PATCH 022/146] fix: skip parameter file lines without an assignment

After the warning such a line was inserted as a parameter, and an empty line
made the reader loop forever.
---
 opm/core/utility/parameters/ParameterGroup.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/utility/parameters/ParameterGroup.cpp b/opm/core/utility/parameters/ParameterGroup.cpp
index ce85d4d..0486bab 100644
--- a/opm/core/utility/parameters/ParameterGroup.cpp
+++ b/opm/core/utility/parameters/ParameterGroup.cpp
@@ -127,6 +127,7 @@ namespace Opm {
                     int fpos = parameter.find(ID_delimiter_assignment);
                     if (fpos == int(std::string::npos)) {
                         std::cerr << "WARNING: No '" << ID_delimiter_assignment << "' found on line " << lineno << ".\n";
+                        continue;
                     }
                     int pos = fpos + ID_delimiter_assignment.size();
                     int spos = parameter.find(ID_delimiter_assignment, pos);
-- 
2.43.0


From 5eef0720bc0bf3c21162c3e313653ae9e11f4d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:24 +0000
Subject: [PATCH 023/146] fix: reject empty parameter names

An assignment without a name made ParameterGroup loop forever.
---
 opm/core/utility/parameters/ParameterGroup.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opm/core/utility/parameters/ParameterGroup.cpp b/opm/core/utility/parameters/ParameterGroup.cpp
index 0486bab..9974637 100644
--- a/opm/core/utility/parameters/ParameterGroup.cpp
+++ b/opm/core/utility/parameters/ParameterGroup.cpp
@@ -209,6 +209,10 @@ namespace Opm {
         {
 	    std::pair<std::string, std::string> name_path = split(name);
 	    while (name_path.first == "") {
+		if (name_path.second == "") {
+		    std::cerr << "ERROR: The parameter name '" << name << "' is empty.\n";
+		    throw std::exception();
+		}
 		name_path = split(name_path.second);
 	    }
 	    map_type::const_iterator it = map_.find(name_path.first);
-- 
2.43.0


From 2c55c83e51465bed8197c58be035e030a72cf934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:43 +0000
Subject: [PATCH 024/146] fix: reject XML parameter files without a root
 element

---
 opm/core/utility/parameters/ParameterXML.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opm/core/utility/parameters/ParameterXML.cpp b/opm/core/utility/parameters/ParameterXML.cpp
index 60c7294..d170790 100644
--- a/opm/core/utility/parameters/ParameterXML.cpp
+++ b/opm/core/utility/parameters/ParameterXML.cpp
@@ -84,6 +84,10 @@ namespace Opm {
 		    throw std::exception();
                 }
                 const TiXmlNode* root = doc.RootElement();
+                if (!root) {
+		    std::cerr << "ERROR: XML file '" << filename << "' has no root element\n";
+		    throw std::exception();
+                }
 		std::string xml_file_path = boost::filesystem::path(filename).branch_path().string();
 		fill_tree(pg, root, xml_file_path);
 	    }
-- 
2.43.0


From 7803df84f2e8654fb6a2d7d5d0e7756b0f517896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:43 +0000
Subject: [PATCH 025/146] fix: throw on XML parameter names that contain a path
 delimiter

A file could end the program by a failed assert.
---
 opm/core/utility/parameters/ParameterGroup.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opm/core/utility/parameters/ParameterGroup.cpp b/opm/core/utility/parameters/ParameterGroup.cpp
index 9974637..bb32a4b 100644
--- a/opm/core/utility/parameters/ParameterGroup.cpp
+++ b/opm/core/utility/parameters/ParameterGroup.cpp
@@ -177,7 +177,11 @@ namespace Opm {
         {
 	    std::pair<std::string, std::string> name_path = split(name);
 	    map_type::const_iterator it = map_.find(name_path.first);
-	    assert(name_path.second == "");
+	    if (name_path.second != "") {
+		std::cerr << "ERROR: The element name '" << name << "' contains '"
+			  << ID_delimiter_path << "'.\n";
+		throw std::exception();
+	    }
 	    if (it == map_.end()) {
 		map_[name] = data;
 	    } else {
-- 
2.43.0


From 8cc279ae595348c3e9cf3c053c91ed747be4afff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:43 +0000
Subject: [PATCH 026/146] fix: keep the parent of parameter groups valid when
 groups are merged

Subgroups of a merged group kept a pointer to the temporary group they were
read into, and looking up a missing name in them used it.
---
 opm/core/utility/parameters/ParameterGroup.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opm/core/utility/parameters/ParameterGroup.cpp b/opm/core/utility/parameters/ParameterGroup.cpp
index bb32a4b..762908a 100644
--- a/opm/core/utility/parameters/ParameterGroup.cpp
+++ b/opm/core/utility/parameters/ParameterGroup.cpp
@@ -177,6 +177,10 @@ namespace Opm {
         {
 	    std::pair<std::string, std::string> name_path = split(name);
 	    map_type::const_iterator it = map_.find(name_path.first);
+	    if (data->getTag() == ID_xmltag__param_grp) {
+		// The item may come from a group that is about to be merged into this one.
+		dynamic_cast<ParameterGroup&>(*data).parent_ = this;
+	    }
 	    if (name_path.second != "") {
 		std::cerr << "ERROR: The element name '" << name << "' contains '"
 			  << ID_delimiter_path << "'.\n";
-- 
2.43.0


From b48d065214a41131bc61775312847138fa9bb5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:43 +0000
Subject: [PATCH 027/146] fix: let ParameterRequirementNonEmpty accept
 non-empty strings only

---
 opm/core/utility/parameters/ParameterRequirement.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/utility/parameters/ParameterRequirement.hpp b/opm/core/utility/parameters/ParameterRequirement.hpp
index c9b19f7..670fc54 100644
--- a/opm/core/utility/parameters/ParameterRequirement.hpp
+++ b/opm/core/utility/parameters/ParameterRequirement.hpp
@@ -167,7 +167,7 @@ namespace Opm {
 	/// @return
 	struct ParameterRequirementNonEmpty {
 	    std::string operator()(const std::string& x) const {
-		if (x != "") {
+		if (x == "") {
 		    return "The string was empty.";
 		} else {
 		    return "";
-- 
2.43.0


From 06666fd3d9da24dae42d55af5b6dcd9463af550f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:31 +0000
Subject: [PATCH 028/146] fix: reject directories given as XML parameter files

---
 opm/core/utility/parameters/ParameterXML.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/utility/parameters/ParameterXML.cpp b/opm/core/utility/parameters/ParameterXML.cpp
index d170790..9429594 100644
--- a/opm/core/utility/parameters/ParameterXML.cpp
+++ b/opm/core/utility/parameters/ParameterXML.cpp
@@ -78,7 +78,7 @@ namespace Opm {
 	    void read_xml(ParameterGroup& pg, const std::string filename)
             {
                 TiXmlDocument doc(filename);
-                bool ok = doc.LoadFile();
+                bool ok = !boost::filesystem::is_directory(filename) && doc.LoadFile();
                 if (!ok) {
 		    std::cerr << "ERROR: Failed to open XML file '" << filename << "'\n";
 		    throw std::exception();
-- 
2.43.0


From f5f636e0fb035554f4ce3e41e77b5d499711e48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:20 +0000
Subject: [PATCH 029/146] fix: insert XML parameters whose name ends with a
 path delimiter under one name

---
 opm/core/utility/parameters/ParameterGroup.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opm/core/utility/parameters/ParameterGroup.cpp b/opm/core/utility/parameters/ParameterGroup.cpp
index 762908a..e537285 100644
--- a/opm/core/utility/parameters/ParameterGroup.cpp
+++ b/opm/core/utility/parameters/ParameterGroup.cpp
@@ -187,9 +187,9 @@ namespace Opm {
 		throw std::exception();
 	    }
 	    if (it == map_.end()) {
-		map_[name] = data;
+		map_[name_path.first] = data;
 	    } else {
-		if ( (map_[name]->getTag() == data->getTag())  &&
+		if ( (map_[name_path.first]->getTag() == data->getTag())  &&
                      (data->getTag() == ID_xmltag__param_grp) ) {
 		    ParameterGroup& alpha = dynamic_cast<ParameterGroup&>(*(*it).second);
 		    ParameterGroup& beta  = dynamic_cast<ParameterGroup&>(*data);
@@ -199,7 +199,7 @@ namespace Opm {
 		    }
 		} else {
 		    std::cout << "WARNING : The '"
-			      << map_[name]->getTag()
+			      << map_[name_path.first]->getTag()
 			      << "' element '"
 			      << name
 			      << "' already exist in group '"
@@ -207,7 +207,7 @@ namespace Opm {
 			      << "'. The element will be replaced by a '"
 			      << data->getTag()
 			      << "' element.\n";
-		    map_[name] = data;
+		    map_[name_path.first] = data;
 		}
 	    }
 	}
-- 
2.43.0


From e30aebebe8896863fda08936add791e2fc255cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 030/146] fix: invert decreasing tables correctly after
 rescaling their domain

---
 opm/core/utility/NonuniformTableLinear.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/utility/NonuniformTableLinear.hpp b/opm/core/utility/NonuniformTableLinear.hpp
index aac2db2..29679ed 100644
--- a/opm/core/utility/NonuniformTableLinear.hpp
+++ b/opm/core/utility/NonuniformTableLinear.hpp
@@ -151,6 +151,9 @@ namespace Opm
         for (int i = 0; i < int(x_values_.size()); ++i) {
             x_values_[i] = (x_values_[i] - a)*(d - c)/(b - a) + c;
         }
+        // Reversed values are computed anew when they are needed.
+        x_values_reversed_.clear();
+        y_values_reversed_.clear();
     }
 
     template<typename T>
-- 
2.43.0


From 120e36e1dd3192cd69cd0432e0f6486219eed326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 031/146] fix: refuse sparse vector elements with a negative
 index

---
 opm/core/utility/SparseVector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/utility/SparseVector.hpp b/opm/core/utility/SparseVector.hpp
index 2ca6711..3470727 100644
--- a/opm/core/utility/SparseVector.hpp
+++ b/opm/core/utility/SparseVector.hpp
@@ -101,6 +101,7 @@ namespace Opm
 	/// Elements must be added in index order.
 	void addElement(const T& elem, int index)
 	{
+	    ASSERT(index >= 0);
 	    ASSERT(indices_.empty() || index > indices_.back());
 	    ASSERT(index < size_);
 	    data_.push_back(elem);
-- 
2.43.0


From 29814c70644c7a956cb8b2e62c4e209226e3555a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:41 +0000
Subject: [PATCH 032/146] fix: ignore lines with too few numbers when reading
 interpolation data

---
 opm/core/utility/MonotCubicInterpolator.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/opm/core/utility/MonotCubicInterpolator.cpp b/opm/core/utility/MonotCubicInterpolator.cpp
index f2e0200..605da7d 100644
--- a/opm/core/utility/MonotCubicInterpolator.cpp
+++ b/opm/core/utility/MonotCubicInterpolator.cpp
@@ -142,9 +142,8 @@ read(const std::string & datafilename, int xColumn, int fColumn)
     int columnindex = 0;
     std::vector<double> value; 
     if (linestring.size() > 0 && linestring.at(0) != '#') {
-        while (!(strs.rdstate() & std::ios::failbit)) {
-            double tmp;
-            strs >> tmp;
+        double tmp;
+        while (strs >> tmp) {
             value.push_back(tmp);
             columnindex++;
         }
-- 
2.43.0


From b2e22e167561c8fee2f33711c0adde5d86469833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:41 +0000
Subject: [PATCH 033/146] fix: do not use erased iterators when chopping flat
 endpoints

---
 opm/core/utility/MonotCubicInterpolator.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/opm/core/utility/MonotCubicInterpolator.cpp b/opm/core/utility/MonotCubicInterpolator.cpp
index 605da7d..31b4bab 100644
--- a/opm/core/utility/MonotCubicInterpolator.cpp
+++ b/opm/core/utility/MonotCubicInterpolator.cpp
@@ -528,8 +528,13 @@ chopFlatEndpoints(const double epsilon) {
     while ((xf_next_iterator != data.end()) && 
            (fabs(xf_iterator->second - xf_next_iterator->second) < epsilon )) {
         xf_next_iterator++;
-        data.erase(xf_iterator);
-	xf_iterator++;
+        data.erase(xf_iterator++);
+    }
+
+    if (getSize() < 2) {
+        // All data points are similar, only the last one remains.
+        computeInternalFunctionData();
+        return;
     }
 
     xf_iterator = data.end(); 
@@ -540,8 +545,7 @@ chopFlatEndpoints(const double epsilon) {
     while ((xf_next_iterator != data.begin()) &&
            (fabs(xf_iterator->second - xf_next_iterator->second) < epsilon )) {
         xf_next_iterator--;
-        data.erase(xf_iterator);
-	xf_iterator--;
+        data.erase(xf_iterator--);
     }
     
     // Finished chopping, so recompute function data:
-- 
2.43.0


From c9470467ff52ce23adf815e587742fc0748eaf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:41 +0000
Subject: [PATCH 034/146] fix: recompute derivatives after shrinking flat areas

---
 opm/core/utility/MonotCubicInterpolator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opm/core/utility/MonotCubicInterpolator.cpp b/opm/core/utility/MonotCubicInterpolator.cpp
index 31b4bab..a03c196 100644
--- a/opm/core/utility/MonotCubicInterpolator.cpp
+++ b/opm/core/utility/MonotCubicInterpolator.cpp
@@ -616,6 +616,8 @@ shrinkFlatAreas(const double epsilon) {
         }
     }
     
+    // Finished shrinking, so recompute function data:
+    computeInternalFunctionData();
 }
 
 
-- 
2.43.0


From 8ed8826600adad15bf43c95e361837bd6f8a4394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:41 +0000
Subject: [PATCH 035/146] fix: update monotonicity when interpolation data are
 scaled

---
 opm/core/utility/MonotCubicInterpolator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opm/core/utility/MonotCubicInterpolator.cpp b/opm/core/utility/MonotCubicInterpolator.cpp
index a03c196..313c85c 100644
--- a/opm/core/utility/MonotCubicInterpolator.cpp
+++ b/opm/core/utility/MonotCubicInterpolator.cpp
@@ -732,6 +732,8 @@ scaleData(double factor) {
       it->second  *= factor ;
     } 
   } 
+  // The function may be increasing where it was decreasing before.
+  computeInternalFunctionData();
 }
 
 
-- 
2.43.0


From c5fff2094dd1b8f3a6a929a441b59e3f11595c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:02 +0000
Subject: [PATCH 036/146] fix: report zero iterations when an end point is a
 root

---
 opm/core/utility/RootFinders.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/utility/RootFinders.hpp b/opm/core/utility/RootFinders.hpp
index 47b6057..d2d589e 100644
--- a/opm/core/utility/RootFinders.hpp
+++ b/opm/core/utility/RootFinders.hpp
@@ -119,6 +119,7 @@ namespace Opm
             using namespace std;
             const double macheps = numeric_limits<double>::epsilon();
             const double eps = tolerance + macheps*max(max(fabs(a), fabs(b)), 1.0);
+            iterations_used = 0;
 
             double x0 = a;
             double x1 = b;
@@ -134,7 +135,6 @@ namespace Opm
             if (f0*f1 > 0.0) {
                 return ErrorPolicy::handleBracketingFailure(a, b, f0, f1);
             }
-            iterations_used = 0;
             // In every iteraton, x1 is the last point computed,
             // and x0 is the last point computed that makes it a bracket.
             while (fabs(x1 - x0) >= 1e-9*eps) {
@@ -199,6 +199,7 @@ namespace Opm
             using namespace std;
             const double macheps = numeric_limits<double>::epsilon();
             const double eps = tolerance + macheps*max(max(fabs(a), fabs(b)), 1.0);
+            iterations_used = 0;
 
             double f_initial = f(initial_guess);
             const double epsF = tolerance + macheps*max(fabs(f_initial), 1.0);
@@ -231,7 +232,6 @@ namespace Opm
             if (f0*f1 > 0.0) {
                 return ErrorPolicy::handleBracketingFailure(a, b, f0, f1);
             }
-            iterations_used = 0;
             // In every iteraton, x1 is the last point computed,
             // and x0 is the last point computed that makes it a bracket.
             while (fabs(x1 - x0) >= 1e-9*eps) {
-- 
2.43.0


From 0315fcc9f1e32e2c1dfcbf58ea4e913d6532fcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:17 +0000
Subject: [PATCH 037/146] fix: report the function values at both ends when no
 zero is bracketed

---
 opm/core/utility/RootFinders.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opm/core/utility/RootFinders.hpp b/opm/core/utility/RootFinders.hpp
index d2d589e..1ff1c08 100644
--- a/opm/core/utility/RootFinders.hpp
+++ b/opm/core/utility/RootFinders.hpp
@@ -222,6 +222,7 @@ namespace Opm
                     return x1;
                 }
             }
+            const double fa = f0;
             if (f0*f_initial < 0.0) {
                 x1 = initial_guess;
                 f1 = f_initial;
@@ -230,7 +231,7 @@ namespace Opm
                 f0 = f_initial;
             }
             if (f0*f1 > 0.0) {
-                return ErrorPolicy::handleBracketingFailure(a, b, f0, f1);
+                return ErrorPolicy::handleBracketingFailure(a, b, fa, f1);
             }
             // In every iteraton, x1 is the last point computed,
             // and x0 is the last point computed that makes it a bracket.
-- 
2.43.0


From 0795f575bd65853e445b5a9e90a65cf9c03c17ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:28 +0000
Subject: [PATCH 038/146] fix: do not close a matrix or vector file that could
 not be opened

---
 opm/core/linalg/sparse_sys.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/opm/core/linalg/sparse_sys.c b/opm/core/linalg/sparse_sys.c
index 3546965..62c7dce 100644
--- a/opm/core/linalg/sparse_sys.c
+++ b/opm/core/linalg/sparse_sys.c
@@ -211,9 +211,8 @@ csrmatrix_write(const struct CSRMatrix *A, const char *fn)
 
     if (fp != NULL) {
         csrmatrix_write_stream(A, fp);
+        fclose(fp);
     }
-
-    fclose(fp);
 }
 
 
@@ -245,9 +244,8 @@ vector_write(size_t n, const double *v, const char *fn)
 
     if (fp != NULL) {
         vector_write_stream(n, v, fp);
+        fclose(fp);
     }
-
-    fclose(fp);
 }
 
 
-- 
2.43.0


From 426bb84684e5a3fcc3ad673d83e5b603c903a8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 039/146] fix: keep the connections of cell zero when splitting
 disconnected blocks

---
 opm/core/pressure/msmfem/partition.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opm/core/pressure/msmfem/partition.c b/opm/core/pressure/msmfem/partition.c
index db55831..b1d6809 100644
--- a/opm/core/pressure/msmfem/partition.c
+++ b/opm/core/pressure/msmfem/partition.c
@@ -362,6 +362,8 @@ partition_create_c2c(int nc, int nneigh, const int *neigh,
                 }
             }
 
+            (*pc2c)[0] = 0;
+
             ret = nc;
         } else {
             free(*pc2c);
-- 
2.43.0


From 8c4358c86c322e971f61931af611210987995e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:13 +0000
Subject: [PATCH 040/146] fix: mark nodes when they are pushed, so that self
 connections cannot overflow the stack

---
 opm/core/pressure/msmfem/dfs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/pressure/msmfem/dfs.c b/opm/core/pressure/msmfem/dfs.c
index 248b16a..1330c3a 100644
--- a/opm/core/pressure/msmfem/dfs.c
+++ b/opm/core/pressure/msmfem/dfs.c
@@ -59,7 +59,7 @@ void dfs (int size, int *ia, int *ja, int *ncolors, int *color, int* work)
                 
                 if (color[child] == UNVISITED) {
                     *stack++ = child;
-                    color[c] = VISITED;
+                    color[child] = VISITED;
                 }
    
             } else {
-- 
2.43.0


From 031c6ae12f6a4a5e272ae0c6de28f11a4496dc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:56 +0000
Subject: [PATCH 041/146] fix: remember the capacity of compressible boundary
 conditions

---
 opm/core/pressure/tpfa/compr_bc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/pressure/tpfa/compr_bc.c b/opm/core/pressure/tpfa/compr_bc.c
index 32c5bc1..4832b58 100644
--- a/opm/core/pressure/tpfa/compr_bc.c
+++ b/opm/core/pressure/tpfa/compr_bc.c
@@ -62,7 +62,7 @@ expand_source_tables(int alloc, struct compr_bc *bc)
     } else {
         bc->type       = t;  bc->face = f;
         bc->press      = p;  bc->flux = v;
-        bc->saturation = s;
+        bc->saturation = s;  bc->cpty = alloc;
     }
 
     return alloc;
-- 
2.43.0


From 7243fca7d3cc2ec7660af50aab924b845faacfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:46 +0000
Subject: [PATCH 042/146] fix: include gravity in the flow across pressure
 boundaries

---
 opm/core/pressure/tpfa/ifs_tpfa.c | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/opm/core/pressure/tpfa/ifs_tpfa.c b/opm/core/pressure/tpfa/ifs_tpfa.c
index 9c7a2ee..e0fad2a 100644
--- a/opm/core/pressure/tpfa/ifs_tpfa.c
+++ b/opm/core/pressure/tpfa/ifs_tpfa.c
@@ -190,7 +190,7 @@ compute_grav_term(struct UnstructuredGrid *G, const double *gpress,
                   double *fgrav)
 /* ---------------------------------------------------------------------- */
 {
-    int    c, i, f, c1, c2;
+    int    c, i, f;
     double s;
 
     vector_zero(G->number_of_faces, fgrav);
@@ -198,15 +198,9 @@ compute_grav_term(struct UnstructuredGrid *G, const double *gpress,
     for (c = i = 0; c < G->number_of_cells; c++) {
         for (; i < G->cell_facepos[c + 1]; i++) {
             f  = G->cell_faces[i];
+            s  = 2.0*(G->face_cells[2*f + 0] == c) - 1.0;
 
-            c1 = G->face_cells[2*f + 0];
-            c2 = G->face_cells[2*f + 1];
-
-            s  = 2.0*(c1 == c) - 1.0;
-
-            if ((c1 >= 0) && (c2 >= 0)) {
-                fgrav[f] += s * gpress[i];
-            }
+            fgrav[f] += s * gpress[i];
         }
     }
 }
@@ -605,9 +599,9 @@ assemble_incompressible(struct UnstructuredGrid      *G     ,
             s  = 2.0*(c1 == c) - 1.0;
             c2 = (c1 == c) ? c2 : c1;
 
-            h->b[c] -= trans[f] * (s * h->pimpl->fgrav[f]);
-
             if (c2 >= 0) {
+                h->b[c] -= trans[f] * (s * h->pimpl->fgrav[f]);
+
                 j2 = csrmatrix_elm_index(c, c2, h->A);
 
                 h->A->sa[j1] += trans[f];
-- 
2.43.0


From fc03a90e344a407f5a4b1586a75ecbafddf2a193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:46 +0000
Subject: [PATCH 043/146] fix: replace the well pressure differences of the
 previous solve

---
 opm/core/utility/miscUtilities.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opm/core/utility/miscUtilities.cpp b/opm/core/utility/miscUtilities.cpp
index 468dad6..f4a87c8 100644
--- a/opm/core/utility/miscUtilities.cpp
+++ b/opm/core/utility/miscUtilities.cpp
@@ -489,6 +489,8 @@ namespace Opm
         const size_t np = per_grid_cell ?
             saturations.size()/grid.number_of_cells
             : saturations.size()/wells.well_connpos[nw];
+        wdp.clear();
+        wdp.reserve(wells.well_connpos[nw]);
         // Simple for now:
         for (int i = 0; i < nw; i++) {
             double depth_ref = wells.depth_ref[i];
-- 
2.43.0


From aae3d5ca3588e1ae7bad18dc36bb7be05a1a5e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:46 +0000
Subject: [PATCH 044/146] fix: compute well pressure differences on 2D grids

---
 opm/core/pressure/IncompTpfa.cpp   | 2 +-
 opm/core/utility/miscUtilities.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/pressure/IncompTpfa.cpp b/opm/core/pressure/IncompTpfa.cpp
index d9e3aac..4ee889a 100644
--- a/opm/core/pressure/IncompTpfa.cpp
+++ b/opm/core/pressure/IncompTpfa.cpp
@@ -336,7 +336,7 @@ namespace Opm
         // wdp_
         if (wells_) {
             Opm::computeWDP(*wells_, grid_, state.saturation(), props_.density(),
-                            gravity_ ? gravity_[2] : 0.0, true, wdp_);
+                            gravity_ ? gravity_[grid_.dimensions - 1] : 0.0, true, wdp_);
         }
         // totmob_, omega_, gpress_omegaweighted_
         if (gravity_) {
diff --git a/opm/core/utility/miscUtilities.cpp b/opm/core/utility/miscUtilities.cpp
index f4a87c8..33947ad 100644
--- a/opm/core/utility/miscUtilities.cpp
+++ b/opm/core/utility/miscUtilities.cpp
@@ -498,7 +498,7 @@ namespace Opm
                 int cell = wells.well_cells[j];
 
                 // Is this correct wrt. depth_ref?
-                double cell_depth = grid.cell_centroids[3 * cell + 2];
+                double cell_depth = grid.cell_centroids[grid.dimensions * cell + (grid.dimensions - 1)];
 
                 double saturation_sum = 0.0;
                 for (size_t p = 0; p < np; p++) {
-- 
2.43.0


From efcc60913ab6502eaed305634e45d1d123c902af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:32 +0000
Subject: [PATCH 045/146] fix: report no flow through the perforations of shut
 wells

---
 opm/core/pressure/tpfa/cfs_tpfa_residual.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/opm/core/pressure/tpfa/cfs_tpfa_residual.c b/opm/core/pressure/tpfa/cfs_tpfa_residual.c
index 001f9a3..db7839d 100644
--- a/opm/core/pressure/tpfa/cfs_tpfa_residual.c
+++ b/opm/core/pressure/tpfa/cfs_tpfa_residual.c
@@ -1089,7 +1089,7 @@ compute_wflux(int                        np    ,
               const double              *wpress,
               double                    *wflux )
 {
-    int           w, c, i, p;
+    int           w, c, i, p, is_open;
     double        pw, dp, t;
     const double *pmob, *wdp;
 
@@ -1105,7 +1105,8 @@ compute_wflux(int                        np    ,
     wdp   = cdata->wdp;
 
     for (w = i = 0; w < W->number_of_wells; w++) {
-        pw = wpress[w];
+        pw      = wpress[w];
+        is_open = W->ctrls[w]->current >= 0;
 
         for (; i < W->well_connpos[w + 1]; i++) {
             c  = W->well_cells[ i ];
@@ -1118,7 +1119,7 @@ compute_wflux(int                        np    ,
                 t += pmob[ p ];
             }
 
-            wflux[ i ] = W->WI[i] * t * dp;
+            wflux[ i ] = is_open ? W->WI[i] * t * dp : 0.0;
         }
     }
 }
-- 
2.43.0


From 2b7b6bc893fd421f7cff0af9d9e0e7f427dd9add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:56 +0000
Subject: [PATCH 046/146] fix: choose the upwind cell of each phase by its own
 potential

---
 opm/core/pressure/CompressibleTpfa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/pressure/CompressibleTpfa.cpp b/opm/core/pressure/CompressibleTpfa.cpp
index 3dcb204..4363990 100644
--- a/opm/core/pressure/CompressibleTpfa.cpp
+++ b/opm/core/pressure/CompressibleTpfa.cpp
@@ -429,7 +429,7 @@ namespace Opm
             for (int phase = 0; phase < np; ++phase) {
                 int upwindc = -1;
                 if (c[0] >=0 && c[1] >= 0) {
-                    upwindc = (pot[0] < pot[1]) ? c[1] : c[0];
+                    upwindc = (pot[0][phase] < pot[1][phase]) ? c[1] : c[0];
                 } else {
                     upwindc = (c[0] >= 0) ? c[0] : c[1];
                 }
-- 
2.43.0


From 9a657a90173262ae74660e4ec3638589f3e33265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:03 +0000
Subject: [PATCH 047/146] fix: report injector backflow with the mobilities of
 the pressure equation

---
 opm/core/pressure/tpfa/cfs_tpfa_residual.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/opm/core/pressure/tpfa/cfs_tpfa_residual.c b/opm/core/pressure/tpfa/cfs_tpfa_residual.c
index db7839d..3236435 100644
--- a/opm/core/pressure/tpfa/cfs_tpfa_residual.c
+++ b/opm/core/pressure/tpfa/cfs_tpfa_residual.c
@@ -1096,6 +1096,9 @@ compute_wflux(int                        np    ,
     struct Wells          *W;
     struct CompletionData *cdata;
 
+    /* Suppress warning about unused parameter. */
+    (void) pmobc;
+
     assert (wells       != NULL);
     assert (wells->W    != NULL);
     assert (wells->data != NULL);
@@ -1112,8 +1115,8 @@ compute_wflux(int                        np    ,
             c  = W->well_cells[ i ];
             dp = pw + wdp[ i ] - cpress[c];
 
-            if (dp > 0) { pmob = cdata->phasemob + (i * np); } /* w->c */
-            else        { pmob = pmobc           + (c * np); } /* c->w */
+            /* Same mobilities as in the residual, for consistency. */
+            pmob = cdata->phasemob + (i * np);
 
             for (p = 0, t = 0.0; p < np; p++) {
                 t += pmob[ p ];
-- 
2.43.0


From b8217964ea14c92f55949f66728c2c9c2bd58d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:03 +0000
Subject: [PATCH 048/146] fix: shut wells do not fix the pressure level

---
 opm/core/pressure/tpfa/cfs_tpfa_residual.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/pressure/tpfa/cfs_tpfa_residual.c b/opm/core/pressure/tpfa/cfs_tpfa_residual.c
index 3236435..ce33327 100644
--- a/opm/core/pressure/tpfa/cfs_tpfa_residual.c
+++ b/opm/core/pressure/tpfa/cfs_tpfa_residual.c
@@ -961,7 +961,7 @@ assemble_well_contrib(struct cfs_tpfa_res_wells   *wells ,
 
             h->F[ nc + w ] -= dt * ctrl->target[ ctrl->current ];
         }
-        else {
+        else if (ctrl->current >= 0) { /* Open, BHP controlled */
             is_neumann = 0;
         }
     }
-- 
2.43.0


From d26d87612c47b4a8f045a201596fc92031317139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:03 +0000
Subject: [PATCH 049/146] fix: do not accept a pressure solution whose residual
 is not a number

---
 opm/core/pressure/CompressibleTpfa.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/opm/core/pressure/CompressibleTpfa.cpp b/opm/core/pressure/CompressibleTpfa.cpp
index 4363990..4b133b0 100644
--- a/opm/core/pressure/CompressibleTpfa.cpp
+++ b/opm/core/pressure/CompressibleTpfa.cpp
@@ -140,7 +140,7 @@ namespace Opm
                   << std::setw(9) << iter
                   << std::setw(18) << res_norm
                   << std::setw(18) << '*' << std::endl;
-        while ((iter < maxiter_) && (res_norm > residual_tol_)) {
+        while ((iter < maxiter_) && !(res_norm <= residual_tol_)) {
             // Solve for increment in Newton method:
             //   incr = x_{n+1} - x_{n} = -J^{-1}F
             // (J is Jacobian matrix, F is residual)
@@ -178,7 +178,7 @@ namespace Opm
                       << std::setw(18) << inc_norm << std::endl;
         }
 
-        if ((iter == maxiter_) && (res_norm > residual_tol_) && (inc_norm > change_tol_)) {
+        if ((iter == maxiter_) && !(res_norm <= residual_tol_) && !(inc_norm <= change_tol_)) {
             THROW("CompressibleTpfa::solve() failed to converge in " << maxiter_ << " iterations.");
         }
 
@@ -564,7 +564,11 @@ namespace Opm
         {
             double norm = 0.0;
             for (; beg != end; ++beg) {
-                norm = std::max(norm, std::fabs(*beg));
+                const double a = std::fabs(*beg);
+                if (a != a) {
+                    return a; // Not a number.
+                }
+                norm = std::max(norm, a);
             }
             return norm;
         }
-- 
2.43.0


From cb083c8f6a4b14708db4197ad5e69d446b58b9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:17 +0000
Subject: [PATCH 050/146] fix: correct the fluxes of perforated cells with
 their own inner products

---
 opm/core/pressure/mimetic/hybsys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/pressure/mimetic/hybsys.c b/opm/core/pressure/mimetic/hybsys.c
index 694c561..13da354 100644
--- a/opm/core/pressure/mimetic/hybsys.c
+++ b/opm/core/pressure/mimetic/hybsys.c
@@ -686,7 +686,7 @@ hybsys_compute_press_flux_well(int nc, const int *pgconn, int nf,
             }
         }
 
-        gp2 += ngconn + ngconn;
+        gp2 += ngconn * ngconn;
     }
 
     /* Assign well BHP from linsolve output */
-- 
2.43.0


From 6421060d2fabebabc0604e5c2f70db8b5cfbd60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:25 +0000
Subject: [PATCH 051/146] fix: eliminate only prescribed pressures from the
 well equations

---
 opm/core/pressure/ifsh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/pressure/ifsh.c b/opm/core/pressure/ifsh.c
index a174bda..c51ee99 100644
--- a/opm/core/pressure/ifsh.c
+++ b/opm/core/pressure/ifsh.c
@@ -133,7 +133,7 @@ ifsh_impose_well_control(int              c,
         f = gconn[i];
         j = ifsh->pimpl->bdry_condition[ f ];
 
-        if (j != -1) {
+        if ((j != -1) && (bc->type[j] == BC_PRESSURE)) {
             for (w1 = 0; w1 < nwconn; w1++) {
                 /* Eliminate prescribed (boundary) pressure value */
                 r  [ngconn + w1]   -= r2w[i + w1*ngconn] * bc->value[j];
-- 
2.43.0


From 850935b939bbc7b0515a66a0d9734ecfb125a89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:25 +0000
Subject: [PATCH 052/146] fix: index the coupling of wells in one cell by the
 number of wells

---
 opm/core/pressure/ifsh.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/pressure/ifsh.c b/opm/core/pressure/ifsh.c
index c51ee99..9d767c8 100644
--- a/opm/core/pressure/ifsh.c
+++ b/opm/core/pressure/ifsh.c
@@ -169,8 +169,8 @@ ifsh_impose_well_control(int              c,
             /* Well->well */
             for (w2 = (w1 + 1) % nwconn; w2 != w1; w2 = (w2 + 1) % nwconn) {
                 r  [ngconn + w2]    -= w2w[w2 + w1*nwconn] * bhp;
-                w2w[w2 + w1*ngconn]  = 0.0;
-                w2w[w1 + w2*ngconn]  = 0.0;
+                w2w[w2 + w1*nwconn]  = 0.0;
+                w2w[w1 + w2*nwconn]  = 0.0;
             }
 
             /* Assemble final well equation of the form S*p_bh = S*p_bh^0 */
-- 
2.43.0


From 996e749fa0cf26188edc2e62b3cf7550d9bf399c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:40 +0000
Subject: [PATCH 053/146] fix: do not modify compressible systems that are not
 singular

---
 opm/core/pressure/cfsh.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opm/core/pressure/cfsh.c b/opm/core/pressure/cfsh.c
index 8ca7e9f..5bca717 100644
--- a/opm/core/pressure/cfsh.c
+++ b/opm/core/pressure/cfsh.c
@@ -191,7 +191,7 @@ cfsh_assemble(struct FlowBoundaryConditions *bc,
               struct fsh_data *h)
 /* ---------------------------------------------------------------------- */
 {
-    int npp;                /* Number of prescribed pressure values */
+    int c, npp;                /* Number of prescribed pressure values */
 
     /* Suppress warnings about unused parameters. */
     (void) wctrl;  (void) WI;  (void) BivW;  (void) wdp;
@@ -204,6 +204,11 @@ cfsh_assemble(struct FlowBoundaryConditions *bc,
 
     npp = cfsh_assemble_grid(bc, Binv, gpress, src, h);
 
+    /* The pressure level is determined by accumulation, if any. */
+    for (c = 0; (npp == 0) && (c < h->pimpl->nc); c++) {
+        npp += fabs(P[c]) > 0.0;
+    }
+
     if (npp == 0) {
         h->A->sa[0] *= 2;        /* Remove zero eigenvalue */
     }
-- 
2.43.0


From a0d4cae5afa1563ab30c59a4bd1d4f09212a58c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:56 +0000
Subject: [PATCH 054/146] fix: count the couplings of wells that share a cell
 once

---
 opm/core/pressure/mimetic/hybsys_global.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opm/core/pressure/mimetic/hybsys_global.c b/opm/core/pressure/mimetic/hybsys_global.c
index 33a352e..c73e0c6 100644
--- a/opm/core/pressure/mimetic/hybsys_global.c
+++ b/opm/core/pressure/mimetic/hybsys_global.c
@@ -171,7 +171,9 @@ count_conn_per_row_well(struct UnstructuredGrid *G, well_t *W,
 
             for (m = 0; m < wia[w]->m; m++) {
                 if ((dof = wia[w]->s[m]) >= 0) {
-                    A->ia[ dof + 1 ] += 1; /* face to well */
+                    if (dof < nf) {
+                        A->ia[ dof + 1 ] += 1; /* face to well */
+                    }
                     nwdof            += 1; /* well to face */
                 }
             }
-- 
2.43.0


From 18492a8b43da5ef6bfa6122f56e40ece77108f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 055/146] fix: explicit upwind transport took the oil mobility
 from the wrong cell without total flow

With zero total flux and a negative gravity flux the oil flows from the
first to the second cell, but the mobility of the second cell was used,
and a fully segregated pair of cells gave 0/0.
---
 opm/core/transport/minimal/spu_explicit.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/opm/core/transport/minimal/spu_explicit.c b/opm/core/transport/minimal/spu_explicit.c
index 91b12bc..2869f97 100644
--- a/opm/core/transport/minimal/spu_explicit.c
+++ b/opm/core/transport/minimal/spu_explicit.c
@@ -17,7 +17,7 @@ spu_explicit(struct UnstructuredGrid *g, double *s0, double *s, double *mob,
              double *dflux, double *gflux, double *src,
              double dt)
 {
-    int i, f, c1, c2;
+    int i, f, c, c1, c2;
     int nc = g->number_of_cells;
     int nf = g->number_of_faces;
 
@@ -67,20 +67,25 @@ spu_explicit(struct UnstructuredGrid *g, double *s0, double *s, double *mob,
             }
 
             else {
-                /* Oil mobility */
-                if (dflux[f]>0) {
-                    m2 = mob[2*c1+1];
+                /* Oil mobility (oil flows against gflux if dflux is zero) */
+                if (dflux[f]>0 || (!(dflux[f]<0) && gflux[f]<0)) {
+                    c  = c1;
                 }
                 else {
-                    m2 = mob[2*c2+1];
+                    c  = c2;
                 }
-                /* Water mobility */
-                if (dflux[f]+m2*gflux[f]>0) {
+                m2 = mob[2*c+1];
+                /* Water mobility (same cell as oil if there is no water flux) */
+                flux = dflux[f]+m2*gflux[f];
+                if (flux>0) {
                     m1 = mob[2*c1];
                 }
-                else {
+                else if (flux<0) {
                     m1 = mob[2*c2];
                 }
+                else {
+                    m1 = mob[2*c];
+                }
             }
 
             /* Water flux */            
-- 
2.43.0


From 4033545fc51435f8380326f026710e41a03e3b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 056/146] fix: gravity column solver includes its headers from
 where they are

The class could not be used at all.
---
 opm/core/transport/implicit/GravityColumnSolver.hpp      | 2 +-
 opm/core/transport/implicit/GravityColumnSolver_impl.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/transport/implicit/GravityColumnSolver.hpp b/opm/core/transport/implicit/GravityColumnSolver.hpp
index 1213297..0d058e5 100644
--- a/opm/core/transport/implicit/GravityColumnSolver.hpp
+++ b/opm/core/transport/implicit/GravityColumnSolver.hpp
@@ -61,6 +61,6 @@ namespace Opm
 
 } // namespace Opm
 
-#include <opm/core/transport/GravityColumnSolver_impl.hpp>
+#include <opm/core/transport/implicit/GravityColumnSolver_impl.hpp>
 
 #endif // OPM_GRAVITYCOLUMNSOLVER_HEADER_INCLUDED
diff --git a/opm/core/transport/implicit/GravityColumnSolver_impl.hpp b/opm/core/transport/implicit/GravityColumnSolver_impl.hpp
index 7e31778..d3c9b26 100644
--- a/opm/core/transport/implicit/GravityColumnSolver_impl.hpp
+++ b/opm/core/transport/implicit/GravityColumnSolver_impl.hpp
@@ -17,7 +17,7 @@
   along with OPM.  If not, see <http://www.gnu.org/licenses/>.
 */
 
-#include <opm/core/transport/GravityColumnSolver.hpp>
+#include <opm/core/transport/implicit/GravityColumnSolver.hpp>
 #include <opm/core/linalg/blas_lapack.h>
 #include <opm/core/utility/ErrorMacros.hpp>
 #include <sys/time.h>
-- 
2.43.0


From cb1132e669e5a979bc350ac4717ecabcd844124d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 057/146] fix: gravity column solver leaves columns of one cell
 at the initial guess

With a model that does not start from the previous solution, such cells
ended up with saturation 0.5.
---
 opm/core/transport/implicit/GravityColumnSolver_impl.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/opm/core/transport/implicit/GravityColumnSolver_impl.hpp b/opm/core/transport/implicit/GravityColumnSolver_impl.hpp
index d3c9b26..621d3f6 100644
--- a/opm/core/transport/implicit/GravityColumnSolver_impl.hpp
+++ b/opm/core/transport/implicit/GravityColumnSolver_impl.hpp
@@ -133,10 +133,6 @@ namespace Opm
 	// This is written only to work with SinglePointUpwindTwoPhase,
 	// not with arbitrary problem models.
 	const int col_size = column_cells.size();
-        if (col_size == 1) {
-            sol_vec[column_cells[0]] = 0.0;
-            return;
-        }
 	StateWithZeroFlux state(s); // This holds s by reference.
 
 	// Assemble.
-- 
2.43.0


From c2ae196466f65b74bb9db0614a08c213c25bbcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 058/146] fix: implicit upwinding picked two immobile phases in
 segregated cells

With no total flux and a negative gravity flux, the first phase at its
minimum in the second cell and at its maximum in the first, both upwind
mobilities were zero and the flux 0/0.
---
 opm/core/transport/implicit/SinglePointUpwindTwoPhase.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/opm/core/transport/implicit/SinglePointUpwindTwoPhase.hpp b/opm/core/transport/implicit/SinglePointUpwindTwoPhase.hpp
index 92d8703..6592036 100644
--- a/opm/core/transport/implicit/SinglePointUpwindTwoPhase.hpp
+++ b/opm/core/transport/implicit/SinglePointUpwindTwoPhase.hpp
@@ -638,8 +638,12 @@ namespace Opm {
 
                 m[0] = store_.mob(n[ pix[0] ]) [ 0 ];
 
-                if (! (dflux - m[0]*gflux < 0))     { pix[1] = 0; }
-                else                                { pix[1] = 1; }
+                // Without flux of the second phase, take both mobilities from
+                // the same cell so that their sum is positive.
+                const double v2 = dflux - m[0]*gflux;
+                if      (v2 > 0)                    { pix[1] = 0;      }
+                else if (v2 < 0)                    { pix[1] = 1;      }
+                else                                { pix[1] = pix[0]; }
 
                 m[1] = store_.mob(n[ pix[1] ]) [ 1 ];
 
-- 
2.43.0


From 1e6ae0af4f8f2460a690f0e9353147b08e31fc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 059/146] fix: implicit transport ignored the derivative of the
 oil mobility for fluids reporting it by water saturation

---
 .../implicit/SimpleFluid2pWrappingProps_impl.hpp          | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/opm/core/transport/implicit/SimpleFluid2pWrappingProps_impl.hpp b/opm/core/transport/implicit/SimpleFluid2pWrappingProps_impl.hpp
index 09dc673..0cf8475 100644
--- a/opm/core/transport/implicit/SimpleFluid2pWrappingProps_impl.hpp
+++ b/opm/core/transport/implicit/SimpleFluid2pWrappingProps_impl.hpp
@@ -72,6 +72,14 @@ namespace Opm{
         dmob[0*2 + 1] /= mu[1];
         dmob[1*2 + 0] /= mu[0];
         dmob[1*2 + 1] /= mu[1];
+        // The saturations sum to one, so what counts is how each
+        // mobility changes with the saturation of its own phase while
+        // the other phase makes room. Some fluids report this as a
+        // derivative with respect to the first saturation only.
+        dmob[0*2 + 0] -= dmob[1*2 + 0];
+        dmob[1*2 + 1] -= dmob[0*2 + 1];
+        dmob[0*2 + 1] = 0.0;
+        dmob[1*2 + 0] = 0.0;
     }
 
     template <class Sat,
-- 
2.43.0


From af05cea7c93cded7d1475499092be9cd1cf1c84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 060/146] fix: minimal implicit upwind transport took the oil
 mobility from the wrong cell without total flow

---
 opm/core/transport/minimal/spu_implicit.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/transport/minimal/spu_implicit.c b/opm/core/transport/minimal/spu_implicit.c
index d544714..da0a29b 100644
--- a/opm/core/transport/minimal/spu_implicit.c
+++ b/opm/core/transport/minimal/spu_implicit.c
@@ -244,8 +244,8 @@ phase_upwind_mobility(double darcyflux, double gravityflux,  int i, int c,
     /* If Darcy flux and gravity flux have opposite sign...   */
     else {
         
-        /* Positive oil phase flux */
-        if (darcyflux>0) {
+        /* Positive oil phase flux, also when gravity alone drives it */
+        if (darcyflux>0 || (!(darcyflux<0) && gravityflux<0)) {
             m [1]  =  mob[2*i+1];
             dm[1]  = dmob[2*i+1];
             cix[1] = i;
-- 
2.43.0


From b3be517d5273607086517add661b56d7ebf232a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 061/146] fix: minimal implicit upwind transport had no room
 for the diagonal on grids with few boundary faces

---
 opm/core/transport/minimal/spu_implicit.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/transport/minimal/spu_implicit.c b/opm/core/transport/minimal/spu_implicit.c
index da0a29b..b60ad49 100644
--- a/opm/core/transport/minimal/spu_implicit.c
+++ b/opm/core/transport/minimal/spu_implicit.c
@@ -148,8 +148,8 @@ spu_implicit(struct UnstructuredGrid *g, double *s0, double *s, double h, double
     sparse_t      *S = malloc(sizeof *S);
     if (S) {
         S->ia = malloc((nc+1) * sizeof *S->ia);
-        S->ja = malloc( nhf   * sizeof *S->ja);
-        S->sa = malloc( nhf   * sizeof *S->sa);
+        S->ja = malloc( (nc+nhf) * sizeof *S->ja);
+        S->sa = malloc( (nc+nhf) * sizeof *S->sa);
         S->n  = nc;
         S->m  = nc;
     }
-- 
2.43.0


From ceea3360799b936272e8a4d0e1b22de5e046c78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 062/146] fix: implicit transport matrix has repeated entries
 for cells that share several faces

---
 opm/core/transport/implicit/CSRMatrixBlockAssembler.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opm/core/transport/implicit/CSRMatrixBlockAssembler.hpp b/opm/core/transport/implicit/CSRMatrixBlockAssembler.hpp
index 4e5b4fc..7ed196d 100644
--- a/opm/core/transport/implicit/CSRMatrixBlockAssembler.hpp
+++ b/opm/core/transport/implicit/CSRMatrixBlockAssembler.hpp
@@ -161,6 +161,8 @@ namespace Opm {
                 }
 
                 ::std::sort(sconn_.begin(), sconn_.end());
+                // Cells that share several faces are one connection.
+                sconn_.erase(::std::unique(sconn_.begin(), sconn_.end()), sconn_.end());
 
                 esconn_.resize(0);
                 esconn_.reserve(ndof * sconn_.size());
-- 
2.43.0


From 2784bfe94cf3c2d7d52c58927d66bc91adf69938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 063/146] fix: tracers in source cells were changed by inflow
 from other cells

---
 opm/core/tof/TofReorder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opm/core/tof/TofReorder.cpp b/opm/core/tof/TofReorder.cpp
index 618b541..5e9d17b 100644
--- a/opm/core/tof/TofReorder.cpp
+++ b/opm/core/tof/TofReorder.cpp
@@ -172,7 +172,8 @@ namespace Opm
                 // face.
                 if (other != -1) {
                     upwind_term += flux*tof_[other];
-                    for (int tr = 0; tr < num_tracers_; ++tr) {
+                    // Do not change tracer solution in source cells.
+                    for (int tr = 0; tr < num_tracers_ && source_[cell] <= 0.0; ++tr) {
                         tracer_[num_tracers_*cell + tr] += flux*tracer_[num_tracers_*other + tr];
                     }
                 }
-- 
2.43.0


From d8e39fc55611c144beae720c65e61f831ff543a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 064/146] fix: multidimensional upwind time of flight is NaN
 next to faces without flow

---
 opm/core/tof/TofReorder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/tof/TofReorder.cpp b/opm/core/tof/TofReorder.cpp
index 5e9d17b..819130c 100644
--- a/opm/core/tof/TofReorder.cpp
+++ b/opm/core/tof/TofReorder.cpp
@@ -220,7 +220,7 @@ namespace Opm
             // Add flux to upwind_term or downwind_term_[face|cell_factor].
             if (flux < 0.0) {
                 upwind_term += flux*face_tof_[f];
-            } else {
+            } else if (flux > 0.0) {
                 double fterm, cterm_factor;
                 multidimUpwindTerms(f, cell, fterm, cterm_factor);
                 downwind_term_face += fterm*flux;
-- 
2.43.0


From 940b04db83405732e7f120414f13f448d66f4858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:44 +0000
Subject: [PATCH 065/146] fix: time-of-flight limiter fails in cells with a
 flat solution

---
 opm/core/tof/TofDiscGalReorder.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opm/core/tof/TofDiscGalReorder.cpp b/opm/core/tof/TofDiscGalReorder.cpp
index ef50b66..cfed458 100644
--- a/opm/core/tof/TofDiscGalReorder.cpp
+++ b/opm/core/tof/TofDiscGalReorder.cpp
@@ -459,7 +459,10 @@ namespace Opm
             min_upstream_tof = 0.0;
         }
         const double tof_c = basis_func_->functionAverage(tof_coeff_ + num_basis*cell);
-        double limiter = (tof_c - min_upstream_tof)/(tof_c - min_here_tof);
+        double limiter = 1.0; // No need to limit a flat solution.
+        if (tof_c > min_here_tof) {
+            limiter = (tof_c - min_upstream_tof)/(tof_c - min_here_tof);
+        }
         if (tof_c < min_upstream_tof) {
             // Handle by setting a flat solution.
             std::cout << "Trouble in cell " << cell << std::endl;
-- 
2.43.0


From b50978f70ba1439f10f5b05163391027a8b24ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:34 +0000
Subject: [PATCH 066/146] fix: cloning a well whose controls were cleared
 aborted

---
 opm/core/wells/wells.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opm/core/wells/wells.c b/opm/core/wells/wells.c
index c1327f7..2bc47d5 100644
--- a/opm/core/wells/wells.c
+++ b/opm/core/wells/wells.c
@@ -653,7 +653,8 @@ clone_wells(const struct Wells *W)
                 }
 
                 if (ok) {
-                    set_current_control(w, ctrls->current, ret);
+                    /* Possibly out of range after clear_well_controls() */
+                    ret->ctrls[ w ]->current = ctrls->current;
                 }
 
                 pos = W->well_connpos[w + 1];
-- 
2.43.0


From 740860fdcdbc8d3df3fcb4215eda10348b761893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:34 +0000
Subject: [PATCH 067/146] fix: timer accepted invalid step numbers

---
 opm/core/simulator/SimulatorTimer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/simulator/SimulatorTimer.cpp b/opm/core/simulator/SimulatorTimer.cpp
index 4aa52ec..c009741 100644
--- a/opm/core/simulator/SimulatorTimer.cpp
+++ b/opm/core/simulator/SimulatorTimer.cpp
@@ -72,7 +72,7 @@ namespace Opm
     /// Set current step number.
     void SimulatorTimer::setCurrentStepNum(int step)
     {
-        if (current_step_ < 0 || current_step_ > int(timesteps_.size())) {
+        if (step < 0 || step > int(timesteps_.size())) {
             // Note that we do allow current_step_ == timesteps_.size(),
             // that is the done() state.
             THROW("Trying to set invalid step number: " << step);
-- 
2.43.0


From 5afd65a3ec628ec857ee4513264688fc83f91679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:34 +0000
Subject: [PATCH 068/146] fix: timer dates wrapped around 68 years after the
 start

---
 opm/core/simulator/SimulatorTimer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/simulator/SimulatorTimer.cpp b/opm/core/simulator/SimulatorTimer.cpp
index c009741..6ee65f1 100644
--- a/opm/core/simulator/SimulatorTimer.cpp
+++ b/opm/core/simulator/SimulatorTimer.cpp
@@ -98,7 +98,7 @@ namespace Opm
 
     boost::posix_time::ptime SimulatorTimer::currentDateTime() const
     {
-      return boost::posix_time::ptime(start_date_) + boost::posix_time::seconds( (int) current_time_ );
+      return boost::posix_time::ptime(start_date_) + boost::posix_time::seconds( (long) current_time_ );
     }
     
 
-- 
2.43.0


From 1ddd4410207ab11edf9cb75f19416d8ca609c687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:34 +0000
Subject: [PATCH 069/146] fix: total time of a timer was undefined before
 initialisation

---
 opm/core/simulator/SimulatorTimer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/simulator/SimulatorTimer.cpp b/opm/core/simulator/SimulatorTimer.cpp
index 6ee65f1..79dd8c0 100644
--- a/opm/core/simulator/SimulatorTimer.cpp
+++ b/opm/core/simulator/SimulatorTimer.cpp
@@ -32,6 +32,7 @@ namespace Opm
     SimulatorTimer::SimulatorTimer()
         : current_step_(0),
           current_time_(0.0),
+          total_time_(0.0),
           start_date_(2012,1,1)    // A really arbitrary default starting value?!
     {
     }
-- 
2.43.0


From 4a467e2b3676c15b0db1b9ad4298ed0722b905e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 070/146] fix: rock compressibility was not the relative
 derivative of the pore volume multiplier

---
 opm/core/props/rock/RockCompressibility.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opm/core/props/rock/RockCompressibility.cpp b/opm/core/props/rock/RockCompressibility.cpp
index b290f9b..9ac39ae 100644
--- a/opm/core/props/rock/RockCompressibility.cpp
+++ b/opm/core/props/rock/RockCompressibility.cpp
@@ -78,7 +78,9 @@ namespace Opm
     double RockCompressibility::rockComp(double pressure) const
     {
         if (p_.empty()) {
-            return rock_comp_;
+            // Relative derivative of the quadratic curve in poroMult().
+            const double cpnorm = rock_comp_*(pressure - pref_);
+            return rock_comp_*(1.0 + cpnorm)/(1.0 + cpnorm + 0.5*cpnorm*cpnorm);
         } else {
             //const double poromult = Opm::linearInterpolation(p_, poromult_, pressure);
             //const double dporomultdp = Opm::linearInterpolationDerivative(p_, poromult_, pressure);
-- 
2.43.0


From e9763cce0742db0bf45ce392b370e7ca3642536e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:53 +0000
Subject: [PATCH 071/146] Revert "fix: rock compressibility was not the
 relative derivative of the pore volume multiplier"

This reverts commit 4a467e2b3676c15b0db1b9ad4298ed0722b905e9.
---
 opm/core/props/rock/RockCompressibility.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/opm/core/props/rock/RockCompressibility.cpp b/opm/core/props/rock/RockCompressibility.cpp
index 9ac39ae..b290f9b 100644
--- a/opm/core/props/rock/RockCompressibility.cpp
+++ b/opm/core/props/rock/RockCompressibility.cpp
@@ -78,9 +78,7 @@ namespace Opm
     double RockCompressibility::rockComp(double pressure) const
     {
         if (p_.empty()) {
-            // Relative derivative of the quadratic curve in poroMult().
-            const double cpnorm = rock_comp_*(pressure - pref_);
-            return rock_comp_*(1.0 + cpnorm)/(1.0 + cpnorm + 0.5*cpnorm*cpnorm);
+            return rock_comp_;
         } else {
             //const double poromult = Opm::linearInterpolation(p_, poromult_, pressure);
             //const double dporomultdp = Opm::linearInterpolationDerivative(p_, poromult_, pressure);
-- 
2.43.0


From d993e81c1bd189819a475f40b675faee5ebf65cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 072/146] fix: well reports used the first well's injection
 mixture for every well

---
 opm/core/utility/miscUtilities.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opm/core/utility/miscUtilities.cpp b/opm/core/utility/miscUtilities.cpp
index 33947ad..b119f82 100644
--- a/opm/core/utility/miscUtilities.cpp
+++ b/opm/core/utility/miscUtilities.cpp
@@ -619,12 +619,12 @@ namespace Opm
                 well_rate_total += perf_rate;
                 if (perf_rate > 0.0) {
                     // Injection.
-                    well_rate_water += perf_rate*wells.comp_frac[0];
+                    well_rate_water += perf_rate*wells.comp_frac[wells.number_of_phases*w];
                 } else {
                     // Production.
                     const int cell = wells.well_cells[perf];
                     double mob[max_np];
-                    props.relperm(1, &saturation[2*cell], &cell, mob, 0);
+                    props.relperm(1, &saturation[np*cell], &cell, mob, 0);
                     double tmob = 0;
                     for(int i = 0; i < np; ++i) {
                         mob[i] /= visc[i];
@@ -677,7 +677,7 @@ namespace Opm
                 well_rate_total += perf_rate;
                 if (perf_rate > 0.0) {
                     // Injection.
-                    well_rate_water += perf_rate*wells.comp_frac[0];
+                    well_rate_water += perf_rate*wells.comp_frac[wells.number_of_phases*w];
                 } else {
                     // Production.
                     const int cell = wells.well_cells[perf];
-- 
2.43.0


From 7a8c7cfb23057daff0e56a53f3369091e00b443c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 073/146] fix: flow rates per well were appended to whatever
 the output held

---
 opm/core/utility/miscUtilities.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/utility/miscUtilities.cpp b/opm/core/utility/miscUtilities.cpp
index b119f82..be8eb7f 100644
--- a/opm/core/utility/miscUtilities.cpp
+++ b/opm/core/utility/miscUtilities.cpp
@@ -532,6 +532,7 @@ namespace Opm
             std::vector<double>& flow_rates_per_well)
     {
         int index_in_flow_rates = 0;
+        flow_rates_per_well.clear();
         for (int w = 0; w < wells.number_of_wells; w++) {
             int number_of_cells = wells.well_connpos[w + 1] - wells.well_connpos[w];
             double flow_sum = 0.0;
-- 
2.43.0


From 9265b339ccaa44535272c144cf5ca2047d7ae81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 074/146] fix: wells as sources kept old values and lost wells
 sharing a cell

---
 opm/core/utility/miscUtilities.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/utility/miscUtilities.cpp b/opm/core/utility/miscUtilities.cpp
index be8eb7f..b0d02e7 100644
--- a/opm/core/utility/miscUtilities.cpp
+++ b/opm/core/utility/miscUtilities.cpp
@@ -454,7 +454,7 @@ namespace Opm
         if (np != 2) {
             THROW("wellsToSrc() requires a 2 phase case.");
         }
-        src.resize(num_cells);
+        src.assign(num_cells, 0.0);
         for (int w = 0; w < wells.number_of_wells; ++w) {
             const int cur = wells.ctrls[w]->current;
             if (wells.ctrls[w]->num != 1) {
@@ -476,7 +476,7 @@ namespace Opm
                 flow *= wells.comp_frac[np*w + 0]; // Obtaining water rate for inflow source.
             }
             const int cell = wells.well_cells[wells.well_connpos[w]];
-            src[cell] = flow;
+            src[cell] += flow;
         }
     }
 
-- 
2.43.0


From d59751ea622e50d9515b27735a13b25f040e0c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:59 +0000
Subject: [PATCH 075/146] fix: blackoil mobilities were computed for all cells
 instead of the given ones

---
 opm/core/utility/miscUtilitiesBlackoil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/utility/miscUtilitiesBlackoil.cpp b/opm/core/utility/miscUtilitiesBlackoil.cpp
index 4584e45..25452b1 100644
--- a/opm/core/utility/miscUtilitiesBlackoil.cpp
+++ b/opm/core/utility/miscUtilitiesBlackoil.cpp
@@ -196,7 +196,7 @@ namespace Opm
                                 const std::vector<double>&              s,
                                 std::vector<double>&                    pmobc)
     {
-        const int nc = props.numCells();
+        const int nc = cells.size();
         const int np = props.numPhases();
 
         ASSERT (int(s.size()) == nc * np);
-- 
2.43.0


From 9146e81bc56c8056bb0e50b0f6ae04e134b56b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:31 +0000
Subject: [PATCH 076/146] fix: wet gas tables with some records lacking
 undersaturated data were misread or overrun

---
 opm/core/props/pvt/SinglePvtLiveGas.cpp | 51 ++++++++++---------------
 1 file changed, 20 insertions(+), 31 deletions(-)

diff --git a/opm/core/props/pvt/SinglePvtLiveGas.cpp b/opm/core/props/pvt/SinglePvtLiveGas.cpp
index e58a51a..4d24d32 100644
--- a/opm/core/props/pvt/SinglePvtLiveGas.cpp
+++ b/opm/core/props/pvt/SinglePvtLiveGas.cpp
@@ -41,6 +41,20 @@ namespace Opm
     using Opm::linearInterpolation;
     using Opm::linearInterpolationDerivative;
 
+    namespace {
+        // Value of a table section at the given Rv, a section with only
+        // its saturated entry does not depend on Rv.
+        double sectionValue(const std::vector<std::vector<double> >& section,
+                            const int item,
+                            const double Rv)
+        {
+            if (section[0].size() < 2) {
+                return section[item][0];
+            }
+            return linearInterpolation(section[0], section[item], Rv);
+        }
+    }
+
     //------------------------------------------------------------------------
     // Member functions
     //-------------------------------------------------------------------------
@@ -239,21 +253,10 @@ namespace Opm
                                                 press);
             } else {  // Undersaturated case
                 int is = section;
-                if (undersat_gas_tables_[is][0].size() < 2) {
-                    double val = (saturated_gas_table_[item][is+1]
-                                  - saturated_gas_table_[item][is]) /
-                        (saturated_gas_table_[0][is+1] -
-                         saturated_gas_table_[0][is]);
-                    return val;
-                }
                 double val1 =
-                    linearInterpolation(undersat_gas_tables_[is][0],
-                                              undersat_gas_tables_[is][item],
-                                              maxR);
+                    sectionValue(undersat_gas_tables_[is], item, maxR);
                 double val2 =
-                    linearInterpolation(undersat_gas_tables_[is+1][0],
-                                              undersat_gas_tables_[is+1][item],
-                                              maxR);
+                    sectionValue(undersat_gas_tables_[is+1], item, maxR);
                 double val = (val2 - val1)/
                     (saturated_gas_table_[0][is+1] - saturated_gas_table_[0][is]);
                 return val;
@@ -267,37 +270,23 @@ namespace Opm
                 int is = section;
                 // Extrapolate from first table section
                 if (is == 0 && press < saturated_gas_table_[0][0]) {
-                    return linearInterpolation(undersat_gas_tables_[0][0],
-                                                     undersat_gas_tables_[0][item],
-                                                     maxR);
+                    return sectionValue(undersat_gas_tables_[0], item, maxR);
                 }
 
                 // Extrapolate from last table section
                 int ltp = saturated_gas_table_[0].size() - 1;
                 if (is+1 == ltp && press > saturated_gas_table_[0][ltp]) {
-                    return linearInterpolation(undersat_gas_tables_[ltp][0],
-                                                     undersat_gas_tables_[ltp][item],
-                                                     maxR);
+                    return sectionValue(undersat_gas_tables_[ltp], item, maxR);
                 }
 
                 // Interpolate between table sections
                 double w = (press - saturated_gas_table_[0][is]) /
                     (saturated_gas_table_[0][is+1] -
                      saturated_gas_table_[0][is]);
-                if (undersat_gas_tables_[is][0].size() < 2) {
-                    double val = saturated_gas_table_[item][is] +
-                        w*(saturated_gas_table_[item][is+1] -
-                           saturated_gas_table_[item][is]);
-                    return val;
-                }
                 double val1 =
-                    linearInterpolation(undersat_gas_tables_[is][0],
-                                              undersat_gas_tables_[is][item],
-                                              maxR);
+                    sectionValue(undersat_gas_tables_[is], item, maxR);
                 double val2 =
-                    linearInterpolation(undersat_gas_tables_[is+1][0],
-                                              undersat_gas_tables_[is+1][item],
-                                              maxR);
+                    sectionValue(undersat_gas_tables_[is+1], item, maxR);
                 double val = val1 + w*(val2 - val1);
                 return val;
             }
-- 
2.43.0


From aae9a3b6b9daf9224178104bdfb708e7e1e933e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:31 +0000
Subject: [PATCH 077/146] fix: wet gas viscosity was NaN without oil and gas

---
 opm/core/props/pvt/SinglePvtLiveGas.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/props/pvt/SinglePvtLiveGas.cpp b/opm/core/props/pvt/SinglePvtLiveGas.cpp
index 4d24d32..46790a6 100644
--- a/opm/core/props/pvt/SinglePvtLiveGas.cpp
+++ b/opm/core/props/pvt/SinglePvtLiveGas.cpp
@@ -245,7 +245,7 @@ namespace Opm
         double Rval = linearInterpolation(saturated_gas_table_[0],
                                                 saturated_gas_table_[3], press,
                                                 section);
-        double maxR = surfvol[phase_pos_[Liquid]]/surfvol[phase_pos_[Vapour]];
+        double maxR = (surfvol[phase_pos_[Liquid]] == 0.0) ? 0.0 : surfvol[phase_pos_[Liquid]]/surfvol[phase_pos_[Vapour]];
         if (deriv) {
             if (Rval < maxR ) {  // Saturated case
                 return linearInterpolationDerivative(saturated_gas_table_[0],
-- 
2.43.0


From 9ef1fe7238ab51a28b58265b3f4a7e6591998e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:31 +0000
Subject: [PATCH 078/146] fix: live fluid tables without enough records were
 accepted and overrun

---
 opm/core/props/pvt/SinglePvtLiveGas.cpp | 3 +++
 opm/core/props/pvt/SinglePvtLiveOil.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/opm/core/props/pvt/SinglePvtLiveGas.cpp b/opm/core/props/pvt/SinglePvtLiveGas.cpp
index 46790a6..3dbe296 100644
--- a/opm/core/props/pvt/SinglePvtLiveGas.cpp
+++ b/opm/core/props/pvt/SinglePvtLiveGas.cpp
@@ -69,6 +69,9 @@ namespace Opm
         }
         saturated_gas_table_.resize(4);
         const int sz = pvtg[region_number].size();
+        if (sz < 2) {
+            THROW("PVTG needs at least two records");
+        }
         for (int k=0; k<4; ++k) {
             saturated_gas_table_[k].resize(sz);
         }
diff --git a/opm/core/props/pvt/SinglePvtLiveOil.cpp b/opm/core/props/pvt/SinglePvtLiveOil.cpp
index 269eb33..7b6b114 100644
--- a/opm/core/props/pvt/SinglePvtLiveOil.cpp
+++ b/opm/core/props/pvt/SinglePvtLiveOil.cpp
@@ -46,6 +46,9 @@ namespace Opm
         }
         saturated_oil_table_.resize(4);
         const int sz =  pvto[region_number].size();
+        if (sz < 2 || pvto[region_number].back().size() < 7) {
+            THROW("PVTO needs at least two records, and undersaturated data in the last one");
+        }
         for (int k=0; k<4; ++k) {
             saturated_oil_table_[k].resize(sz);
         }
-- 
2.43.0


From da9942920dc762961fa529cae80820ce0642a5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:31 +0000
Subject: [PATCH 079/146] fix: live oil records were filled in from a record
 further away than the nearest

---
 opm/core/props/pvt/SinglePvtLiveOil.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/opm/core/props/pvt/SinglePvtLiveOil.cpp b/opm/core/props/pvt/SinglePvtLiveOil.cpp
index 7b6b114..07b30b0 100644
--- a/opm/core/props/pvt/SinglePvtLiveOil.cpp
+++ b/opm/core/props/pvt/SinglePvtLiveOil.cpp
@@ -90,7 +90,6 @@ namespace Opm
                 bool flagPrev = (iPrev >= 0);
                 bool flagNext = true;
                 if (iNext < i) {
-                        iPrev = iNext;
                         flagPrev = true;
                         iNext = i+1;
                         while (undersat_oil_tables_[iNext][0].size() < 2) {
-- 
2.43.0


From 4674740a076a8599575b9ade06cd53e3672193ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:07 +0000
Subject: [PATCH 080/146] fix: relative permeability derivatives of the
 segregation model were NaN without mobile water and gas

---
 opm/core/props/satfunc/SatFuncGwseg.cpp | 28 ++++++++++++++-----------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/opm/core/props/satfunc/SatFuncGwseg.cpp b/opm/core/props/satfunc/SatFuncGwseg.cpp
index 94b0131..80caeea 100644
--- a/opm/core/props/satfunc/SatFuncGwseg.cpp
+++ b/opm/core/props/satfunc/SatFuncGwseg.cpp
@@ -154,12 +154,14 @@ namespace Opm
             const double dkrow = krow_.derivative(ssw);
             const double dkrog = krog_.derivative(ssg);
             const double d = ssg; // = sw - swco + sg (using 'd' for consistency with mrst docs).
-            dkrds[Aqua   + Aqua*np]   =  (xg/d)*krw + xw*dkrww;
-            dkrds[Aqua   + Vapour*np] = -(xw/d)*krw + xw*dkrww;
-            dkrds[Liquid + Aqua*np]   =  (xg/d)*krow + xw*dkrow - (xg/d)*krog + xg*dkrog;
-            dkrds[Liquid + Vapour*np] = -(xw/d)*krow + xw*dkrow + (xw/d)*krog + xg*dkrog;
-            dkrds[Vapour + Aqua*np]   = -(xg/d)*krg + xg*dkrgg;
-            dkrds[Vapour + Vapour*np] =  (xw/d)*krg + xg*dkrgg;
+            const double dxwdsw = (d > eps) ?  xg/d : 1.0/eps;
+            const double dxwdsg = (d > eps) ? -xw/d : 0.0;
+            dkrds[Aqua   + Aqua*np]   =  dxwdsw*krw + xw*dkrww;
+            dkrds[Aqua   + Vapour*np] =  dxwdsg*krw + xw*dkrww;
+            dkrds[Liquid + Aqua*np]   =  dxwdsw*krow + xw*dkrow - dxwdsw*krog + xg*dkrog;
+            dkrds[Liquid + Vapour*np] =  dxwdsg*krow + xw*dkrow - dxwdsg*krog + xg*dkrog;
+            dkrds[Vapour + Aqua*np]   = -dxwdsw*krg + xg*dkrgg;
+            dkrds[Vapour + Vapour*np] = -dxwdsg*krg + xg*dkrgg;
             return;
         }
         // We have a two-phase situation. We know that oil is active.
@@ -359,12 +361,14 @@ namespace Opm
             const double dkrow = krow_.derivative(ssw);
             const double dkrog = krog_.derivative(ssg);
             const double d = ssg; // = sw - swco + sg (using 'd' for consistency with mrst docs).
-            dkrds[Aqua   + Aqua*np]   =  (xg/d)*krw + xw*dkrww;
-            dkrds[Aqua   + Vapour*np] = -(xw/d)*krw + xw*dkrww;
-            dkrds[Liquid + Aqua*np]   =  (xg/d)*krow + xw*dkrow - (xg/d)*krog + xg*dkrog;
-            dkrds[Liquid + Vapour*np] = -(xw/d)*krow + xw*dkrow + (xw/d)*krog + xg*dkrog;
-            dkrds[Vapour + Aqua*np]   = -(xg/d)*krg + xg*dkrgg;
-            dkrds[Vapour + Vapour*np] =  (xw/d)*krg + xg*dkrgg;
+            const double dxwdsw = (d > eps) ?  xg/d : 1.0/eps;
+            const double dxwdsg = (d > eps) ? -xw/d : 0.0;
+            dkrds[Aqua   + Aqua*np]   =  dxwdsw*krw + xw*dkrww;
+            dkrds[Aqua   + Vapour*np] =  dxwdsg*krw + xw*dkrww;
+            dkrds[Liquid + Aqua*np]   =  dxwdsw*krow + xw*dkrow - dxwdsw*krog + xg*dkrog;
+            dkrds[Liquid + Vapour*np] =  dxwdsg*krow + xw*dkrow - dxwdsg*krog + xg*dkrog;
+            dkrds[Vapour + Aqua*np]   = -dxwdsw*krg + xg*dkrgg;
+            dkrds[Vapour + Vapour*np] = -dxwdsg*krg + xg*dkrgg;
             return;
         }
         // We have a two-phase situation. We know that oil is active.
-- 
2.43.0


From 4404f902ec9ba3e6a6d559af37cc63e8272ba107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:07 +0000
Subject: [PATCH 081/146] fix: Stone II oil relative permeability had wrong
 derivatives by gas saturation and where it is cut off at zero

---
 opm/core/props/satfunc/SatFuncStone2.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/opm/core/props/satfunc/SatFuncStone2.cpp b/opm/core/props/satfunc/SatFuncStone2.cpp
index 93cbe00..54ff437 100644
--- a/opm/core/props/satfunc/SatFuncStone2.cpp
+++ b/opm/core/props/satfunc/SatFuncStone2.cpp
@@ -140,14 +140,15 @@ namespace Opm
             kr[Aqua] = krw;
             kr[Vapour] = krg;
             kr[Liquid] = krocw*((krow/krocw + krw)*(krog/krocw + krg) - krw - krg);
-            if (kr[Liquid] < 0.0) {
-                kr[Liquid] = 0.0;
-            }
             dkrds[Aqua + Aqua*np] = dkrww;
             dkrds[Vapour + Vapour*np] = dkrgg;
+            if (kr[Liquid] < 0.0) {
+                kr[Liquid] = 0.0; // Constant, the derivatives are zero.
+                return;
+            }
             dkrds[Liquid + Aqua*np] = krocw*((dkrow/krocw + dkrww)*(krog/krocw + krg) - dkrww);
             dkrds[Liquid + Vapour*np] = krocw*((krow/krocw + krw)*(dkrog/krocw + dkrgg) - dkrgg)
-                    + krocw*((dkrow/krocw + krw)*(krog/krocw + krg) - dkrgg);
+                    + dkrow*(krog/krocw + krg);
             return;
         }
         // We have a two-phase situation. We know that oil is active.
@@ -334,14 +335,15 @@ namespace Opm
             kr[Aqua] = krw;
             kr[Vapour] = krg;
             kr[Liquid] = krocw*((krow/krocw + krw)*(krog/krocw + krg) - krw - krg);
-            if (kr[Liquid] < 0.0) {
-                kr[Liquid] = 0.0;
-            }
             dkrds[Aqua + Aqua*np] = dkrww;
             dkrds[Vapour + Vapour*np] = dkrgg;
+            if (kr[Liquid] < 0.0) {
+                kr[Liquid] = 0.0; // Constant, the derivatives are zero.
+                return;
+            }
             dkrds[Liquid + Aqua*np] = krocw*((dkrow/krocw + dkrww)*(krog/krocw + krg) - dkrww);
             dkrds[Liquid + Vapour*np] = krocw*((krow/krocw + krw)*(dkrog/krocw + dkrgg) - dkrgg)
-                    + krocw*((dkrow/krocw + krw)*(krog/krocw + krg) - dkrgg);
+                    + dkrow*(krog/krocw + krg);
             return;
         }
         // We have a two-phase situation. We know that oil is active.
-- 
2.43.0


From 116f8d9c308660d38753d731646dcf252deabe3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:07 +0000
Subject: [PATCH 082/146] fix: end-point scaling of incompressible properties
 used uninitialised table end points

---
 opm/core/props/satfunc/SatFuncStone2.cpp | 42 ++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/opm/core/props/satfunc/SatFuncStone2.cpp b/opm/core/props/satfunc/SatFuncStone2.cpp
index 54ff437..f30d1c2 100644
--- a/opm/core/props/satfunc/SatFuncStone2.cpp
+++ b/opm/core/props/satfunc/SatFuncStone2.cpp
@@ -55,6 +55,27 @@ namespace Opm
             smin_[phase_usage.phase_pos[Aqua]] = sw[0];
             swmax = sw.back();
             smax_[phase_usage.phase_pos[Aqua]] = sw.back();
+
+            krwmax_ = krw.back();
+            kromax_ = krow.front();
+            swcr_ = swmax;
+            sowcr_ = 1.0 - swco;
+            krwr_ = krw.back();
+            krorw_ = krow.front();
+            for (std::vector<double>::size_type i=1; i<sw.size(); ++i) {
+                if (krw[i]> 0.0) {
+                   swcr_ = sw[i-1];
+                   krorw_ = krow[i-1];
+                   break;
+                }
+            }
+            for (std::vector<double>::size_type i=sw.size()-1; i>=1; --i) {
+                if (krow[i-1]> 0.0) {
+                   sowcr_ = 1.0 - sw[i];
+                   krwr_ = krw[i];
+                   break;
+                }
+            }
         }
         if (phase_usage.phase_used[Vapour]) {
             const SGOF::table_t& sgof_table = deck.getSGOF().sgof_;
@@ -250,6 +271,27 @@ namespace Opm
             smin_[phase_usage.phase_pos[Aqua]] = sw[0];
             swmax = sw.back();
             smax_[phase_usage.phase_pos[Aqua]] = sw.back();
+
+            krwmax_ = krw.back();
+            kromax_ = krow.front();
+            swcr_ = swmax;
+            sowcr_ = 1.0 - swco;
+            krwr_ = krw.back();
+            krorw_ = krow.front();
+            for (std::vector<double>::size_type i=1; i<sw.size(); ++i) {
+                if (krw[i]> 0.0) {
+                   swcr_ = sw[i-1];
+                   krorw_ = krow[i-1];
+                   break;
+                }
+            }
+            for (std::vector<double>::size_type i=sw.size()-1; i>=1; --i) {
+                if (krow[i-1]> 0.0) {
+                   sowcr_ = 1.0 - sw[i];
+                   krwr_ = krw[i];
+                   break;
+                }
+            }
         }
         if (phase_usage.phase_used[Vapour]) {
             const SGOF::table_t& sgof_table = deck.getSGOF().sgof_;
-- 
2.43.0


From 6e0580a9cc4f55c79e4a6cbd0001896c3f19ecfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:07 +0000
Subject: [PATCH 083/146] fix: scaling of water relative permeability tested
 the oil values it does not use

---
 opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp b/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
index 5f1983c..23e8c93 100644
--- a/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
+++ b/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
@@ -477,7 +477,7 @@ namespace Opm
            } else if (sr > swmax-1.0e-6) {
                if (do_3pt_) { //Ignore krw and do two-point?
                    kr[wpos] *= eps_.krwr_[cell]/funcForCell(cell).krwr_;
-               } else if (!eps_.kro_.empty()){ //Ignore krwr and do two-point
+               } else if (!eps_.krw_.empty()){ //Ignore krwr and do two-point
                    kr[wpos] *= eps_.krw_[cell]/funcForCell(cell).krwmax_;
                }
            } else if (s[wpos] <= sr) {
-- 
2.43.0


From 00b4304b43ef5702bc1133580397a0a43572797f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:07 +0000
Subject: [PATCH 084/146] fix: three-point scaling ignored the other phase's
 critical saturation when given alone

---
 opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp b/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
index 23e8c93..b0bbf62 100644
--- a/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
+++ b/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
@@ -383,7 +383,7 @@ namespace Opm
        
        if (do_3pt_) { // Three-point scaling
            // Transforms for water saturation 
-           if (eps_.swcr_.empty() && eps_.swu_.empty()) {
+           if (eps_.swcr_.empty() && eps_.swu_.empty() && eps_.sowcr_.empty()) {
                ss[wpos] = s[wpos]; 
            } else {
                double s_r = 1.0-funcForCell(cell).sowcr_;
@@ -399,7 +399,7 @@ namespace Opm
                }
            }
            // Transforms for oil saturation 
-           if (eps_.sowcr_.empty() && eps_.swl_.empty()) {
+           if (eps_.sowcr_.empty() && eps_.swl_.empty() && eps_.swcr_.empty()) {
                ss[opos] = s[opos]; 
            } else {
                double s_r = 1.0-funcForCell(cell).swcr_;
-- 
2.43.0


From 8b8aa30dc69fd7a50fdba7792e383d0b2c28450b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:46 +0000
Subject: [PATCH 085/146] fix: end-point scaling of incompressible properties
 scaled oil relative permeability by the water end points

---
 opm/core/props/satfunc/SatFuncStone2.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/opm/core/props/satfunc/SatFuncStone2.cpp b/opm/core/props/satfunc/SatFuncStone2.cpp
index f30d1c2..3e79627 100644
--- a/opm/core/props/satfunc/SatFuncStone2.cpp
+++ b/opm/core/props/satfunc/SatFuncStone2.cpp
@@ -124,7 +124,7 @@ namespace Opm
             int opos = phase_usage.phase_pos[Liquid];
             double sw = s[wpos];
             double krw = krw_(sw);
-            double krow = krow_(sw);
+            double krow = krow_(1.0-s[opos]);
             kr[wpos] = krw;
             kr[opos] = krow;
         } else {
@@ -179,8 +179,8 @@ namespace Opm
             double sw = s[wpos];
             double krw = krw_(sw);
             double dkrww = krw_.derivative(sw);
-            double krow = krow_(sw);
-            double dkrow = krow_.derivative(sw);
+            double krow = krow_(1.0-s[opos]);
+            double dkrow = krow_.derivative(1.0-s[opos]);
             kr[wpos] = krw;
             kr[opos] = krow;
             dkrds[wpos + wpos*np] = dkrww;
@@ -340,7 +340,7 @@ namespace Opm
             int opos = phase_usage.phase_pos[Liquid];
             double sw = s[wpos];
             double krw = krw_(sw);
-            double krow = krow_(sw);
+            double krow = krow_(1.0-s[opos]);
             kr[wpos] = krw;
             kr[opos] = krow;
         } else {
@@ -395,8 +395,8 @@ namespace Opm
             double sw = s[wpos];
             double krw = krw_(sw);
             double dkrww = krw_.derivative(sw);
-            double krow = krow_(sw);
-            double dkrow = krow_.derivative(sw);
+            double krow = krow_(1.0-s[opos]);
+            double dkrow = krow_.derivative(1.0-s[opos]);
             kr[wpos] = krw;
             kr[opos] = krow;
             dkrds[wpos + wpos*np] = dkrww;
-- 
2.43.0


From 78c04e4eb46b59111988315a96c160467185ab46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:28 +0000
Subject: [PATCH 086/146] fix: capillary pressures of -1 in SWOF and SGOF were
 taken for defaulted values

---
 .../io/eclipse/EclipseGridParserHelpers.hpp   | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index 55ac41d..7286091 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -203,10 +203,10 @@ namespace
 
 
     // Keywords SGOF and SWOF. Reads data until '/' or an error is encountered.
-    // Default values represented by 1* is replaced by -1. Use linear interpolation
-    // outside this function to replace -1.
+    // Default values represented by 1* is replaced by default_flag. Use linear
+    // interpolation outside this function to replace default_flag.
     template<typename T>
-    inline void readRelPermTable(std::istream& is, std::vector<T>& data)
+    inline void readRelPermTable(std::istream& is, std::vector<T>& data, const T& default_flag)
     {
 	data.clear();
 	while (is) {
@@ -228,7 +228,7 @@ namespace
 		if (is.peek() == int('*')) {
 		    is.ignore(); // ignore the '*'
 		    ASSERT(int(candidate) == 1);
-		    data.push_back(-1); // Set new flag for interpolation.
+		    data.push_back(default_flag); // Set new flag for interpolation.
 		} else {
 		    data.push_back(candidate);
 		}
@@ -402,18 +402,19 @@ namespace
 	}
     }
 
-    // Replace default values -1 by linear interpolation
+    // Replace values equal to default_flag by linear interpolation
     inline void insertDefaultValues(std::vector<std::vector<double> >& table,
                                     int ncol,
                                     double defaultOut = 0.0,
-                                    bool defaultInterpolation = true)
+                                    bool defaultInterpolation = true,
+                                    double default_flag = -1.0)
     {
 	const int sz = table[0].size();
 	for (int k=1; k<ncol; ++k) {
 	    std::vector<int> indx;
 	    std::vector<double> x;
 	    for (int i=0; i<sz; ++i) {
-		if (table[k][i] == -1) {
+		if (table[k][i] == default_flag) {
 		    indx.push_back(i);
 		    x.push_back(table[0][i]);    
 		}
@@ -421,7 +422,7 @@ namespace
 	    if (!indx.empty()) {
 		std::vector<double> xv, yv;
 		for (int i=0; i<sz; ++i) {
-		    if (table[k][i] != -1) {
+		    if (table[k][i] != default_flag) {
 			xv.push_back(table[0][i]);		    
 			yv.push_back(table[k][i]);		    
 		    }
@@ -460,7 +461,9 @@ namespace
 	std::vector<std::vector<double> > table(ncol);	
 	while (!is.eof()) {
 	    record.clear();
-	    readRelPermTable(is, record);
+	    // Capillary pressures may be -1, so the flag must be something else.
+	    const double default_flag = -1.0e100;
+	    readRelPermTable(is, record, default_flag);
 	    if (record.size() % ncol != 0) {
 		THROW("Incomplete row in " << field_name << " table.");
 	    }
@@ -473,7 +476,7 @@ namespace
 		    table[k][i] = record[++n];
 		}
 	    }
-	    insertDefaultValues(table, ncol);
+	    insertDefaultValues(table, ncol, 0.0, true, default_flag);
 	    relperm_table.push_back(table);
 
 	    int action = next_action(is); // 0:continue  1:return  2:throw
-- 
2.43.0


From 8c5796171cfcdd13525e46ae35f68b554382d470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:52 +0000
Subject: [PATCH 087/146] fix: repeated WELSPECS lines gave wells several
 nodes, some pointing beyond the wells

---
 opm/core/wells/WellsManager.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opm/core/wells/WellsManager.cpp b/opm/core/wells/WellsManager.cpp
index 328abd4..3bddaad 100644
--- a/opm/core/wells/WellsManager.cpp
+++ b/opm/core/wells/WellsManager.cpp
@@ -759,8 +759,10 @@ namespace Opm
                 well_collection_.addChild(it->first, it->second, deck);
             }
         }
-        for (size_t i = 0; i < welspecs.welspecs.size(); ++i) {
-            WelspecsLine line = welspecs.welspecs[i];
+        // One node per well, in the order of the Wells struct. The
+        // last WELSPECS line of each well is the one used.
+        for (int w = 0; w < num_wells; ++w) {
+            const WelspecsLine& line = welspecs.welspecs[well_data[w].welspecsline];
             well_collection_.addChild(line.name_, line.group_, deck);
         }
 
-- 
2.43.0


From 8257f682cd0c4b1e1b314a2951215cdcb73d61a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:52 +0000
Subject: [PATCH 088/146] fix: COMPDAT columns outside the grid perforated
 cells of other columns

---
 opm/core/wells/WellsManager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opm/core/wells/WellsManager.cpp b/opm/core/wells/WellsManager.cpp
index 3bddaad..7d54b75 100644
--- a/opm/core/wells/WellsManager.cpp
+++ b/opm/core/wells/WellsManager.cpp
@@ -366,6 +366,10 @@ namespace Opm
                         // Defaulted KZ2.  Use bottom layer.
                         kz2 = cpgdim[2] - 1;
                     }
+                    if (ix < 0 || ix >= cpgdim[0] || jy < 0 || jy >= cpgdim[1]) {
+                        THROW("Column with i,j indices " << ix << ' ' << jy
+                              << " is outside the grid (well = " << name << ')');
+                    }
 
                     for (int kz = kz1; kz <= kz2; ++kz) {
                         int cart_grid_indx = ix + cpgdim[0]*(jy + cpgdim[1]*kz);
-- 
2.43.0


From 821964b0cae30026d911f794c08fc5a5f0de11a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:52 +0000
Subject: [PATCH 089/146] fix: wells named as groups were treated as groups

---
 opm/core/wells/WellCollection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/wells/WellCollection.cpp b/opm/core/wells/WellCollection.cpp
index 19cf301..5251e28 100644
--- a/opm/core/wells/WellCollection.cpp
+++ b/opm/core/wells/WellCollection.cpp
@@ -50,7 +50,7 @@ namespace Opm
             child = createWellsGroup(child_name, deck);
         }
         
-        WellsGroup* parent_as_group = static_cast<WellsGroup*> (parent);
+        WellsGroup* parent_as_group = dynamic_cast<WellsGroup*> (parent);
         if (!parent_as_group) {
             THROW("Trying to add child to group named " << parent_name << ", but it's not a group.");
         }
-- 
2.43.0


From d359081d4fdf0dcc8966d53c9c1a42a1c8f52de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:52 +0000
Subject: [PATCH 090/146] fix: groups placed below themselves vanished from the
 group tree

---
 opm/core/wells/WellCollection.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opm/core/wells/WellCollection.cpp b/opm/core/wells/WellCollection.cpp
index 5251e28..da0e6aa 100644
--- a/opm/core/wells/WellCollection.cpp
+++ b/opm/core/wells/WellCollection.cpp
@@ -37,6 +37,10 @@ namespace Opm
         for (size_t i = 0; i < roots_.size(); ++i) {
             if (roots_[i]->name() == child_name) {
                 child = roots_[i];
+                if (child->findGroup(parent_name)) {
+                    THROW("Group " << child_name << " cannot be placed below group " << parent_name
+                          << ", which is a part of it.");
+                }
                 // We've found a new parent to the previously thought root, need to remove it
                 for(size_t j = i; j < roots_.size() - 1; ++j) {
                     roots_[j] = roots_[j+1];
-- 
2.43.0


From 2a369282fe3b95e5af15e266ad1502d2afd76348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:52 +0000
Subject: [PATCH 091/146] fix: gas and liquid rate limits of wells missing in
 their production specifications

---
 opm/core/wells/WellsGroup.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index 5e9c4ed..d5b10b8 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -1088,6 +1088,8 @@ namespace Opm
                         production_specification.oil_max_rate_ = line.oil_max_rate_;
                         production_specification.control_mode_ = toProductionControlMode(line.control_mode_);
                         production_specification.water_max_rate_ = line.water_max_rate_;
+                        production_specification.gas_max_rate_ = line.gas_max_rate_;
+                        production_specification.liquid_max_rate_ = line.liquid_max_rate_;
                         injection_specification.guide_rate_ = 0.0; // we know we're not an injector
                     }
                 }
-- 
2.43.0


From b6f259dba434f0dc88614c921aa3c30cb5fe1c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:52 +0000
Subject: [PATCH 092/146] fix: wells under their own control in subgroups were
 put under group control with zero rate

---
 opm/core/wells/WellsGroup.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index d5b10b8..22a74fc 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -269,7 +269,7 @@ namespace Opm
             }
             for (size_t i = 0; i < children_.size(); ++i) {
                 const double child_target = target * children_[i]->injectionGuideRate(!forced) / my_guide_rate;
-                children_[i]->applyInjGroupControl(control_mode, child_target, true);
+                children_[i]->applyInjGroupControl(control_mode, child_target, forced);
             }
             injSpec().control_mode_ = InjectionSpecification::FLD;
         }
@@ -294,7 +294,7 @@ namespace Opm
             }
             for (size_t i = 0; i < children_.size(); ++i) {
                 const double child_target = target * children_[i]->productionGuideRate(!forced) / my_guide_rate;
-                children_[i]->applyProdGroupControl(control_mode, child_target, true);
+                children_[i]->applyProdGroupControl(control_mode, child_target, forced);
             }
             prodSpec().control_mode_ = ProductionSpecification::FLD;
         }
-- 
2.43.0


From 4c797db5e80ac44fc02af70198ae121abe11953d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:23 +0000
Subject: [PATCH 093/146] fix: group limits were enforced by shutting injectors
 or the smallest producer

---
 opm/core/wells/WellsGroup.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index 22a74fc..b31c647 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -20,6 +20,7 @@
 #include "config.h"
 #include <opm/core/wells/WellsGroup.hpp>
 #include <cmath>
+#include <limits>
 #include <opm/core/wells.h>
 #include <opm/core/props/phaseUsageFromDeck.hpp>
 
@@ -428,7 +429,7 @@ namespace Opm
             std::pair<WellNode*, double> child_max = children_[i]->getWorstOffending(well_reservoirrates_phase,
                                                                                      well_surfacerates_phase,
                                                                                      mode);
-            if (i == 0 || max.second < child_max.second) {
+            if (max.first == 0 || (child_max.first != 0 && max.second < child_max.second)) {
                 max = child_max;
             }
         }
@@ -767,12 +768,17 @@ namespace Opm
                                                              const std::vector<double>& well_surfacerates_phase,
                                                              ProductionSpecification::ControlMode mode)
     {
+        if (type() == INJECTOR) {
+            // Injectors do not contribute to any production rate.
+            return std::pair<WellNode*, double>(this, -std::numeric_limits<double>::max());
+        }
         const int np = phaseUsage().num_phases;
         const int index = self_index_*np;
+        // Production rates are negative.
         return std::pair<WellNode*, double>(this,
-                                            rateByMode(&well_reservoirrates_phase[index],
-                                                       &well_surfacerates_phase[index],
-                                                       mode));
+                                            -rateByMode(&well_reservoirrates_phase[index],
+                                                        &well_surfacerates_phase[index],
+                                                        mode));
     }
     
     void WellNode::applyInjGroupControl(const InjectionSpecification::ControlMode control_mode,
-- 
2.43.0


From 16149ba7d673ae00c1ff53616c70aeffc862c0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:23 +0000
Subject: [PATCH 094/146] fix: exceeding group limits without procedure made
 conditionsMet fail without any change

---
 opm/core/wells/WellsGroup.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index b31c647..7d1f416 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -393,8 +393,8 @@ namespace Opm
                                       true);
                 return false;
             case ProductionSpecification::NONE_P:
-                // Do nothing
-                return false;
+                // Do nothing, leaving nothing to be solved again.
+                break;
             }
         }
      
-- 
2.43.0


From cc1d491bd3a6533f70ce558d1c2b5bd2f239eaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:23 +0000
Subject: [PATCH 095/146] fix: group production limits were checked again while
 being the active control

---
 opm/core/wells/WellsGroup.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index 7d1f416..4c21438 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -391,6 +391,7 @@ namespace Opm
                 applyProdGroupControl(production_mode_violated, 
                                       getTarget(production_mode_violated),
                                       true);
+                prodSpec().control_mode_ = production_mode_violated;
                 return false;
             case ProductionSpecification::NONE_P:
                 // Do nothing, leaving nothing to be solved again.
-- 
2.43.0


From be9de28a68eb30e504db141d88a9d55604db1a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:23 +0000
Subject: [PATCH 096/146] fix: reinjection controls of groups below other
 groups were never applied

---
 opm/core/wells/WellsGroup.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index 4c21438..6b100c8 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -617,6 +617,13 @@ namespace Opm
             }
             
         }
+        else if (injSpec().control_mode_ == InjectionSpecification::FLD
+                 || injSpec().control_mode_ == InjectionSpecification::NONE) {
+            for (size_t i = 0; i < children_.size(); ++i) {
+                children_[i]->applyExplicitReinjectionControls(well_reservoirrates_phase,
+                                                               well_surfacerates_phase);
+            }
+        }
     }
 
     // ==============    WellNode members   ============
-- 
2.43.0


From a325b25ebee5de501227a7760dd61f03619d9bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:23 +0000
Subject: [PATCH 097/146] fix: injection targets of groups without group
 controlled injectors were divided by zero

---
 opm/core/wells/WellsGroup.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index 6b100c8..e40cbbb 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -481,6 +481,10 @@ namespace Opm
         case InjectionSpecification::RESV:
         {
             const double my_guide_rate = injectionGuideRate(true);
+            if (my_guide_rate == 0.0) {
+                // There are no group controlled injectors.
+                return;
+            }
             for (size_t i = 0; i < children_.size(); ++i) {
                 // Apply for all children. 
                 // Note, we do _not_ want to call the applyProdGroupControl in this object,
@@ -577,6 +581,10 @@ namespace Opm
             const double total_produced = getTotalProductionFlow(well_surfacerates_phase, phase);
             const double total_reinjected = - total_produced; // Production negative, injection positive
             const double my_guide_rate = injectionGuideRate(true);
+            if (my_guide_rate == 0.0) {
+                // There are no group controlled injectors.
+                return;
+            }
             for (size_t i = 0; i < children_.size(); ++i) {
                 // Apply for all children. 
                 // Note, we do _not_ want to call the applyProdGroupControl in this object,
@@ -606,6 +614,10 @@ namespace Opm
             }
             const double total_reinjected = - total_produced; // Production negative, injection positive
             const double my_guide_rate = injectionGuideRate(true);
+            if (my_guide_rate == 0.0) {
+                // There are no group controlled injectors.
+                return;
+            }
             for (size_t i = 0; i < children_.size(); ++i) {
                 // Apply for all children. 
                 // Note, we do _not_ want to call the applyProdGroupControl in this object,
-- 
2.43.0


From 6350880670f5553276489485c0b67c4e0132021b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:23 +0000
Subject: [PATCH 098/146] fix: wells without controls had an undefined type

---
 opm/core/wells/WellsManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/wells/WellsManager.cpp b/opm/core/wells/WellsManager.cpp
index 7d54b75..e5b92b2 100644
--- a/opm/core/wells/WellsManager.cpp
+++ b/opm/core/wells/WellsManager.cpp
@@ -294,6 +294,9 @@ namespace Opm
                 // perforation.
                 wd.reference_bhp_depth = (refdepth < 0.0) ? -1e100 : refdepth;
                 wd.welspecsline = w;
+                // Wells not found in WCONINJE or WCONPROD have no
+                // controls, and are therefore shut.
+                wd.type = PRODUCER;
                 well_data.push_back(wd);
             } else {
                 // Existing well, change data.
-- 
2.43.0


From 3458d1db5142e19f353edd900a9c9942b3cfcbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:23 +0000
Subject: [PATCH 099/146] fix: shut connections in COMPDAT were perforated

---
 opm/core/wells/WellsManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/wells/WellsManager.cpp b/opm/core/wells/WellsManager.cpp
index e5b92b2..c4d8007 100644
--- a/opm/core/wells/WellsManager.cpp
+++ b/opm/core/wells/WellsManager.cpp
@@ -382,6 +382,9 @@ namespace Opm
                             THROW("Cell with i,j,k indices " << ix << ' ' << jy << ' '
                                   << kz << " not found in grid (well = " << name << ')');
                         }
+                        if (compdat.compdat[kw].open_shut_flag_ == "SHUT") {
+                            continue;
+                        }
                         int cell = cgit->second;
                         PerfData pd;
                         pd.cell = cell;
-- 
2.43.0


From 7865d56952e327122421536a87c397b5a23e59f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:00 +0000
Subject: [PATCH 100/146] fix: COMPDAT lines for several wells only applied to
 the first of them

---
 opm/core/wells/WellsManager.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/opm/core/wells/WellsManager.cpp b/opm/core/wells/WellsManager.cpp
index c4d8007..e744e0e 100644
--- a/opm/core/wells/WellsManager.cpp
+++ b/opm/core/wells/WellsManager.cpp
@@ -404,7 +404,6 @@ namespace Opm
                         wellperf_data[wix].push_back(pd);
                     }
                     found = true;
-                    break;
                 }
             }
             if (!found) {
-- 
2.43.0


From 95d703666c0060ebbf4ff605be46d5c77e966615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:00 +0000
Subject: [PATCH 101/146] fix: shut wells were opened when limits were enforced

---
 opm/core/wells/WellsGroup.cpp | 32 ++++++++++++++++++++++++++++++++
 opm/core/wells/WellsGroup.hpp |  4 ++++
 2 files changed, 36 insertions(+)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index e40cbbb..4a3657b 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -674,6 +674,10 @@ namespace Opm
         // Check constraints.
         bool is_producer = (wells_->type[self_index_] == PRODUCER);
         const WellControls& ctrls = *wells_->ctrls[self_index_];
+        if (isShut()) {
+            // Shut wells have no constraints, and must not be opened.
+            return true;
+        }
         for (int ctrl_index = 0; ctrl_index < ctrls.num; ++ctrl_index) {
             if (ctrl_index == ctrls.current || ctrl_index == group_control_index_) {
                 // We do not check constraints that either were used
@@ -814,6 +818,10 @@ namespace Opm
             ASSERT(target == 0.0);
             return;
         }
+        if (forced && isShut()) {
+            // Shut wells stay shut.
+            return;
+        }
 
         const double distr[3] = { 1.0, 1.0, 1.0 };
         WellControlType wct;
@@ -859,6 +867,18 @@ namespace Opm
         return phase_flows[self_index_*phaseUsage().num_phases + phaseUsage().phase_pos[phase]];
     }
     
+    bool WellNode::isShut() const {
+        if (wells_ == 0 || wells_->ctrls[self_index_]->current >= 0) {
+            return false;
+        }
+        // Group controlled wells do not have an active control
+        // until their group control has been applied.
+        const bool group_controlled = (type() == INJECTOR)
+            ? (injSpec().control_mode_ == InjectionSpecification::GRUP)
+            : (prodSpec().control_mode_ == ProductionSpecification::GRUP);
+        return !(group_controlled && group_control_index_ < 0);
+    }
+
     WellType WellNode::type() const {
         return wells_->type[self_index_];
     }
@@ -891,6 +911,10 @@ namespace Opm
             ASSERT(target == 0.0);
             return;
         }
+        if (forced && isShut()) {
+            // Shut wells stay shut.
+            return;
+        }
         // We're a producer, so we need to negate the input
         double ntarget = -target;
         
@@ -971,6 +995,10 @@ namespace Opm
     ///                       wells under group control
     double WellNode::productionGuideRate(bool only_group) 
     {
+        if (!only_group && isShut()) {
+            // Shut wells do not take part in forced group control.
+            return 0.0;
+        }
         if (!only_group || prodSpec().control_mode_ == ProductionSpecification::GRUP) {
             return prodSpec().guide_rate_;
         }
@@ -982,6 +1010,10 @@ namespace Opm
     ///                       wells under group control
     double WellNode::injectionGuideRate(bool only_group)
     {
+        if (!only_group && isShut()) {
+            // Shut wells do not take part in forced group control.
+            return 0.0;
+        }
         if (!only_group || injSpec().control_mode_ == InjectionSpecification::GRUP) {
             return injSpec().guide_rate_;
         }
diff --git a/opm/core/wells/WellsGroup.hpp b/opm/core/wells/WellsGroup.hpp
index 0da2008..954678a 100644
--- a/opm/core/wells/WellsGroup.hpp
+++ b/opm/core/wells/WellsGroup.hpp
@@ -379,6 +379,10 @@ namespace Opm
 
         /// Returns the type of the well.
         WellType type() const;
+
+        /// Returns true if the well is shut. Wells waiting for their
+        /// group control to be applied are not.
+        bool isShut() const;
         
         /// Applies explicit reinjection controls. This must be called at each timestep to be correct.
         /// \param[in]    well_reservoirrates_phase
-- 
2.43.0


From 3172532405a6f262a95c469e0d222658729671ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:44 +0000
Subject: [PATCH 102/146] fix: initBlackoilStateFromDeck() was declared but not
 defined

---
 opm/core/simulator/initState_impl.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/opm/core/simulator/initState_impl.hpp b/opm/core/simulator/initState_impl.hpp
index d8e53bd..afef044 100644
--- a/opm/core/simulator/initState_impl.hpp
+++ b/opm/core/simulator/initState_impl.hpp
@@ -599,6 +599,20 @@ namespace Opm
     }
 
 
+
+    /// Initialize a two-phase water-oil blackoil state from input deck.
+    template <class Props, class State>
+    void initBlackoilStateFromDeck(const UnstructuredGrid& grid,
+                                   const Props& props,
+                                   const EclipseGridParser& deck,
+                                   const double gravity,
+                                   State& state)
+    {
+        initStateFromDeck(grid, props, deck, gravity, state);
+        initBlackoilSurfvol(grid, props, state);
+    }
+
+
 } // namespace Opm
 
 
-- 
2.43.0


From 82e2dace63cff6af6775f80bee14ba850d3fc18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:34 +0000
Subject: [PATCH 103/146] fix: compressible hydrostatic pressures were wrong
 with datum or contact outside the cells' depths

---
 opm/core/simulator/initState_impl.hpp | 30 ++++++++++++++++++---------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/opm/core/simulator/initState_impl.hpp b/opm/core/simulator/initState_impl.hpp
index afef044..537438c 100644
--- a/opm/core/simulator/initState_impl.hpp
+++ b/opm/core/simulator/initState_impl.hpp
@@ -183,15 +183,21 @@ namespace Opm
         {
             ASSERT(props.numPhases() == 2);
 
-            // Obtain max and min z for which we will need to compute p.
+            // Obtain max and min z for which we will need to compute p,
+            // including the datum.
             const int num_cells = grid.number_of_cells;
             const int dim = grid.dimensions;
-            double zlim[2] = { 1e100, -1e100 };
+            double zlim[2] = { datum_z, datum_z };
             for (int c = 0; c < num_cells; ++c) {
                 const double z = grid.cell_centroids[dim*c + dim - 1];
                 zlim[0] = std::min(zlim[0], z);
                 zlim[1] = std::max(zlim[1], z);
             }
+            if (zlim[0] == zlim[1]) {
+                // All cells are at the datum depth.
+                std::fill(state.pressure().begin(), state.pressure().end(), datum_p);
+                return;
+            }
 
             // We'll use a minimum stepsize of 1/100 of the z range.
             const double hmin = (zlim[1] - zlim[0])/100.0;
@@ -203,19 +209,21 @@ namespace Opm
             // Set up density evaluator.
             Density rho(props);
 
-            // Solve the ODE from datum_z to woc.
+            // Solve the ODE from datum_z to woc, or to the end of the
+            // interval if woc is outside.
             int phase = (datum_z > woc) ? 0 : 1;
-            int num_steps = int(std::ceil(std::fabs(woc - datum_z)/hmin));
+            const double z_switch = std::min(std::max(woc, zlim[0]), zlim[1]);
+            int num_steps = int(std::ceil(std::fabs(z_switch - datum_z)/hmin));
             double pval = datum_p;
             double zval = datum_z;
-            double h = (woc - datum_z)/double(num_steps);
+            double h = (z_switch - datum_z)/double(num_steps);
             for (int i = 0; i < num_steps; ++i) {
                 zval += h;
                 const double dp = rho(pval, phase)*gravity;
                 pval += h*dp;
                 press_by_z[zval] = pval;
             }
-            double woc_p = pval;
+            const double switch_p = pval;
 
             // Solve the ODE from datum_z to the end of the interval.
             double z_end = (datum_z > woc) ? zlim[1] : zlim[0];
@@ -230,13 +238,15 @@ namespace Opm
                 press_by_z[zval] = pval;
             }
 
-            // Solve the ODE from woc to the other end of the interval.
+            // Solve the ODE from woc to the other end of the interval
+            // (nothing to do if woc is outside).
             // Switching phase and z_end.
             phase = (phase + 1) % 2;
             z_end = (datum_z > woc) ? zlim[0] : zlim[1];
-            pval = woc_p;
-            zval = woc;
-            h = (z_end - datum_z)/double(num_steps);
+            num_steps = int(std::ceil(std::fabs(z_end - z_switch)/hmin));
+            pval = switch_p;
+            zval = z_switch;
+            h = (z_end - z_switch)/double(num_steps);
             for (int i = 0; i < num_steps; ++i) {
                 zval += h;
                 const double dp = rho(pval, phase)*gravity;
-- 
2.43.0


From 55b37b682600b7369cb35c1c91fd0cb9ffedb9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:34 +0000
Subject: [PATCH 104/146] fix: compressible initial state without contact used
 water density for the oil filling the reservoir

---
 opm/core/simulator/initState_impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opm/core/simulator/initState_impl.hpp b/opm/core/simulator/initState_impl.hpp
index 537438c..9d23d12 100644
--- a/opm/core/simulator/initState_impl.hpp
+++ b/opm/core/simulator/initState_impl.hpp
@@ -463,7 +463,8 @@ namespace Opm
             // Initialise pressure to hydrostatic state.
             const double ref_p = param.getDefault("ref_pressure", 100)*unit::barsa;
             const double ref_z = grid.cell_centroids[0 + grid.dimensions - 1];
-            const double woc = -1e100;
+            // All cells are above the contact.
+            const double woc = 1e100;
             initHydrostaticPressure(grid, props, woc, gravity, ref_z, ref_p, state);
         }
 
-- 
2.43.0


From 9f9c1d6474fc68a497a41a60abdbb7f076156192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:54 +0000
Subject: [PATCH 105/146] fix: ref_pressure was truncated to whole bars

---
 opm/core/simulator/initState_impl.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/opm/core/simulator/initState_impl.hpp b/opm/core/simulator/initState_impl.hpp
index 9d23d12..729e1c6 100644
--- a/opm/core/simulator/initState_impl.hpp
+++ b/opm/core/simulator/initState_impl.hpp
@@ -347,7 +347,7 @@ namespace Opm
                 }
             }
             state.setFirstSat(left_cells, props, State::MaxSat);
-            const double init_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double init_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             std::fill(state.pressure().begin(), state.pressure().end(), init_p);
         } else if (segregation_testcase) {
             // Warn against error-prone usage.
@@ -361,7 +361,7 @@ namespace Opm
             const double woc = param.get<double>("water_oil_contact");
             initWaterOilContact(grid, props, woc, WaterAbove, state);
             // Initialise pressure to hydrostatic state.
-            const double ref_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double ref_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             double dens[2] = { props.density()[1], props.density()[0] };
             initHydrostaticPressure(grid, dens, woc, gravity, woc, ref_p, state);
         } else if (param.has("water_oil_contact")) {
@@ -376,7 +376,7 @@ namespace Opm
             const double woc = param.get<double>("water_oil_contact");
             initWaterOilContact(grid, props, woc, WaterBelow, state);
             // Initialise pressure to hydrostatic state.
-            const double ref_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double ref_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             initHydrostaticPressure(grid, props.density(), woc, gravity, woc, ref_p, state);
         } else if (param.has("init_saturation")) {
             // Initialise water saturation to init_saturation parameter.
@@ -386,7 +386,7 @@ namespace Opm
                 state.saturation()[2*cell + 1] = 1.0 - init_saturation;
             }
             // Initialise pressure to hydrostatic state.
-            const double ref_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double ref_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             const double rho =  props.density()[0]*init_saturation + props.density()[1]*(1.0 - init_saturation);
             const double dens[2] = { rho, rho };
             const double ref_z = grid.cell_centroids[0 + grid.dimensions - 1];
@@ -394,7 +394,7 @@ namespace Opm
         } else {
             // Use default: water saturation is minimum everywhere.
             // Initialise pressure to hydrostatic state.
-            const double ref_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double ref_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             const double rho =  props.density()[1];
             const double dens[2] = { rho, rho };
             const double ref_z = grid.cell_centroids[0 + grid.dimensions - 1];
@@ -442,7 +442,7 @@ namespace Opm
                 }
             }
             state.setFirstSat(left_cells, props, State::MaxSat);
-            const double init_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double init_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             std::fill(state.pressure().begin(), state.pressure().end(), init_p);
         } else if (param.has("water_oil_contact")) {
             // Warn against error-prone usage.
@@ -456,12 +456,12 @@ namespace Opm
             const double woc = param.get<double>("water_oil_contact");
             initWaterOilContact(grid, props, woc, WaterBelow, state);
             // Initialise pressure to hydrostatic state.
-            const double ref_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double ref_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             initHydrostaticPressure(grid, props, woc, gravity, woc, ref_p, state);
         } else {
             // Use default: water saturation is minimum everywhere.
             // Initialise pressure to hydrostatic state.
-            const double ref_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double ref_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             const double ref_z = grid.cell_centroids[0 + grid.dimensions - 1];
             // All cells are above the contact.
             const double woc = 1e100;
-- 
2.43.0


From 48e23c4eb0248d6e73d504f6f7c69d037d206c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:36 +0000
Subject: [PATCH 106/146] fix: water cut and well reports of all transport
 substeps carried the end time of the step

---
 opm/core/simulator/SimulatorIncompTwophase.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opm/core/simulator/SimulatorIncompTwophase.cpp b/opm/core/simulator/SimulatorIncompTwophase.cpp
index 5b60a8f..8407e01 100644
--- a/opm/core/simulator/SimulatorIncompTwophase.cpp
+++ b/opm/core/simulator/SimulatorIncompTwophase.cpp
@@ -559,12 +559,13 @@ namespace Opm
                     dynamic_cast<TransportSolverTwophaseReorder&>(*tsolver_)
                         .solveGravity(&initial_porevol[0], stepsize, state);
                 }
-                watercut.push(timer.currentTime() + timer.currentStepLength(),
+                const double substep_end = timer.currentTime() + (tr_substep + 1)*stepsize;
+                watercut.push(substep_end,
                               produced[0]/(produced[0] + produced[1]),
                               tot_produced[0]/tot_porevol_init);
                 if (wells_) {
                     wellreport.push(props_, *wells_, state.saturation(),
-                                    timer.currentTime() + timer.currentStepLength(),
+                                    substep_end,
                                     well_state.bhp(), well_state.perfRates());
                 }
             }
-- 
2.43.0


From 3435fb4ddf96c97a07039a19ebd0a6ad644a3207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:47 +0000
Subject: [PATCH 107/146] fix: cumulative production in the water cut curve
 lagged one step behind

---
 opm/core/simulator/SimulatorIncompTwophase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/simulator/SimulatorIncompTwophase.cpp b/opm/core/simulator/SimulatorIncompTwophase.cpp
index 8407e01..c35e547 100644
--- a/opm/core/simulator/SimulatorIncompTwophase.cpp
+++ b/opm/core/simulator/SimulatorIncompTwophase.cpp
@@ -562,7 +562,7 @@ namespace Opm
                 const double substep_end = timer.currentTime() + (tr_substep + 1)*stepsize;
                 watercut.push(substep_end,
                               produced[0]/(produced[0] + produced[1]),
-                              tot_produced[0]/tot_porevol_init);
+                              (tot_produced[0] + produced[0])/tot_porevol_init);
                 if (wells_) {
                     wellreport.push(props_, *wells_, state.saturation(),
                                     substep_end,
-- 
2.43.0


From 05eb666d180658218bd970652dfbe40f6e3f09b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:47 +0000
Subject: [PATCH 108/146] fix: checking well controls without wells
 dereferenced a null pointer

---
 opm/core/simulator/SimulatorCompressibleTwophase.cpp | 2 +-
 opm/core/simulator/SimulatorIncompTwophase.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/simulator/SimulatorCompressibleTwophase.cpp b/opm/core/simulator/SimulatorCompressibleTwophase.cpp
index 1905bce..dbdd3f7 100644
--- a/opm/core/simulator/SimulatorCompressibleTwophase.cpp
+++ b/opm/core/simulator/SimulatorCompressibleTwophase.cpp
@@ -274,7 +274,7 @@ namespace Opm
         }
 
         // Well control related init.
-        check_well_controls_ = param.getDefault("check_well_controls", false);
+        check_well_controls_ = param.getDefault("check_well_controls", false) && (wells_ != NULL);
         max_well_control_iterations_ = param.getDefault("max_well_control_iterations", 10);
 
         // Transport related init.
diff --git a/opm/core/simulator/SimulatorIncompTwophase.cpp b/opm/core/simulator/SimulatorIncompTwophase.cpp
index c35e547..174b685 100644
--- a/opm/core/simulator/SimulatorIncompTwophase.cpp
+++ b/opm/core/simulator/SimulatorIncompTwophase.cpp
@@ -373,7 +373,7 @@ namespace Opm
         }
 
         // Well control related init.
-        check_well_controls_ = param.getDefault("check_well_controls", false);
+        check_well_controls_ = param.getDefault("check_well_controls", false) && (wells_ != NULL);
         max_well_control_iterations_ = param.getDefault("max_well_control_iterations", 10);
 
         // Transport related init.
-- 
2.43.0


From fa10b58874384eeb69c37cba6fce026604cee045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:47 +0000
Subject: [PATCH 109/146] fix: segregation splitting without gravity used
 uninitialised gravity data

---
 opm/core/simulator/SimulatorIncompTwophase.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opm/core/simulator/SimulatorIncompTwophase.cpp b/opm/core/simulator/SimulatorIncompTwophase.cpp
index 174b685..c9569ba 100644
--- a/opm/core/simulator/SimulatorIncompTwophase.cpp
+++ b/opm/core/simulator/SimulatorIncompTwophase.cpp
@@ -338,6 +338,10 @@ namespace Opm
                                                                    use_segregation_split_ ? gravity : NULL,
                                                                    param.getDefault("nl_tolerance", 1e-9),
                                                                    param.getDefault("nl_maxiter", 30)));
+            if (gravity == NULL) {
+                // Nothing to segregate, and the solver has no gravity data.
+                use_segregation_split_ = false;
+            }
 
         } else {
             if (rock_comp_props && rock_comp_props->isActive()) {
-- 
2.43.0


From 6b4289670ae3e87390f556dcb681a00aa6961b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:06 +0000
Subject: [PATCH 110/146] fix: transport substeps and segregation lost mass
 when the rock is compressible

---
 .../simulator/SimulatorCompressibleTwophase.cpp    | 12 +++++++++++-
 opm/core/simulator/SimulatorIncompTwophase.cpp     | 14 ++++++++++++--
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/opm/core/simulator/SimulatorCompressibleTwophase.cpp b/opm/core/simulator/SimulatorCompressibleTwophase.cpp
index dbdd3f7..f30fca7 100644
--- a/opm/core/simulator/SimulatorCompressibleTwophase.cpp
+++ b/opm/core/simulator/SimulatorCompressibleTwophase.cpp
@@ -443,9 +443,18 @@ namespace Opm
             }
             double injected[2] = { 0.0 };
             double produced[2] = { 0.0 };
+            std::vector<double> substep_init_porevol = initial_porevol;
+            std::vector<double> substep_porevol = initial_porevol;
             for (int tr_substep = 0; tr_substep < num_transport_substeps_; ++tr_substep) {
+                // Pore volumes at the end of this substep, assumed to
+                // change linearly over the pressure step.
+                const double substep_fraction = double(tr_substep + 1)/double(num_transport_substeps_);
+                for (std::size_t cell = 0; cell < porevol.size(); ++cell) {
+                    substep_porevol[cell] = initial_porevol[cell]
+                        + substep_fraction*(porevol[cell] - initial_porevol[cell]);
+                }
                 tsolver_.solve(&state.faceflux()[0], &state.pressure()[0],
-                               &initial_porevol[0], &porevol[0], &transport_src[0], stepsize,
+                               &substep_init_porevol[0], &substep_porevol[0], &transport_src[0], stepsize,
                                state.saturation(), state.surfacevol());
                 double substep_injected[2] = { 0.0 };
                 double substep_produced[2] = { 0.0 };
@@ -458,6 +467,7 @@ namespace Opm
                 if (gravity_ != 0 && use_segregation_split_) {
                     tsolver_.solveGravity(columns_, stepsize, state.saturation(), state.surfacevol());
                 }
+                substep_init_porevol = substep_porevol;
             }
             transport_timer.stop();
             double tt = transport_timer.secsSinceStart();
diff --git a/opm/core/simulator/SimulatorIncompTwophase.cpp b/opm/core/simulator/SimulatorIncompTwophase.cpp
index c9569ba..f61a0a9 100644
--- a/opm/core/simulator/SimulatorIncompTwophase.cpp
+++ b/opm/core/simulator/SimulatorIncompTwophase.cpp
@@ -546,8 +546,17 @@ namespace Opm
             }
             double injected[2] = { 0.0 };
             double produced[2] = { 0.0 };
+            std::vector<double> substep_init_porevol = initial_porevol;
+            std::vector<double> substep_porevol = initial_porevol;
             for (int tr_substep = 0; tr_substep < num_transport_substeps_; ++tr_substep) {
-                tsolver_->solve(&initial_porevol[0], &transport_src[0], stepsize, state);
+                // Pore volumes at the end of this substep, assumed to
+                // change linearly over the pressure step.
+                const double substep_fraction = double(tr_substep + 1)/double(num_transport_substeps_);
+                for (std::size_t cell = 0; cell < porevol.size(); ++cell) {
+                    substep_porevol[cell] = initial_porevol[cell]
+                        + substep_fraction*(porevol[cell] - initial_porevol[cell]);
+                }
+                tsolver_->solve(&substep_init_porevol[0], &transport_src[0], stepsize, state);
 
                 double substep_injected[2] = { 0.0 };
                 double substep_produced[2] = { 0.0 };
@@ -561,8 +570,9 @@ namespace Opm
                     // Again, unfortunate but safe use of dynamic_cast.
                     // Possible solution: refactor gravity solver to its own class.
                     dynamic_cast<TransportSolverTwophaseReorder&>(*tsolver_)
-                        .solveGravity(&initial_porevol[0], stepsize, state);
+                        .solveGravity(&substep_porevol[0], stepsize, state);
                 }
+                substep_init_porevol = substep_porevol;
                 const double substep_end = timer.currentTime() + (tr_substep + 1)*stepsize;
                 watercut.push(substep_end,
                               produced[0]/(produced[0] + produced[1]),
-- 
2.43.0


From efbb7bdc18e72d50a1201c7f8253b968c720da96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:59 +0000
Subject: [PATCH 111/146] fix: CornerPointChopper keeps the direction of
 inclined pillars when moving the cut to the origin

---
 opm/core/io/eclipse/CornerpointChopper.hpp | 78 ++++++++++++++--------
 1 file changed, 50 insertions(+), 28 deletions(-)

diff --git a/opm/core/io/eclipse/CornerpointChopper.hpp b/opm/core/io/eclipse/CornerpointChopper.hpp
index a757f4e..24c67e4 100644
--- a/opm/core/io/eclipse/CornerpointChopper.hpp
+++ b/opm/core/io/eclipse/CornerpointChopper.hpp
@@ -132,6 +132,26 @@ namespace Opm
             new_dims_[0] = imax - imin;
             new_dims_[1] = jmax - jmin;
 
+            // Get the z limits, check if they must be changed to make a shoe-box.
+            // This means that zmin must be greater than or equal to the highest
+            // coordinate of the bottom surface, while zmax must be less than or
+            // equal to the lowest coordinate of the top surface.
+            int layersz = 8*dims_[0]*dims_[1];
+            const std::vector<double>& ZCORN = parser_.getFloatingPointValue("ZCORN");
+            int num_zcorn = ZCORN.size();
+            if (num_zcorn != layersz*dims_[2]) {
+                std::cerr << "Error! ZCORN size (" << ZCORN.size() << ") not consistent with SPECGRID\n";
+                throw std::runtime_error("Inconsistent ZCORN and SPECGRID.");
+            }
+
+            zmin = std::max(zmin, botmax_);
+            zmax = std::min(zmax, topmin_);
+            if (zmin >= zmax) {
+                std::cerr << "Error: zmin >= zmax (zmin = " << zmin << ", zmax = " << zmax << ")\n";
+                throw std::runtime_error("zmin >= zmax");
+            }
+            std::cout << "Chopping subsample,  i: (" << imin << "--" << imax << ")  j: (" << jmin << "--" << jmax << ")   z: (" << zmin << "--" << zmax << ")" <<  std::endl;
+
             // Filter the coord field
             const std::vector<double>& COORD = parser_.getFloatingPointValue("COORD");
             int num_coord = COORD.size();
@@ -140,8 +160,6 @@ namespace Opm
                 throw std::runtime_error("Inconsistent COORD and SPECGRID.");
             }
             int num_new_coord = 6*(new_dims_[0] + 1)*(new_dims_[1] + 1);
-            double x_correction = COORD[6*((dims_[0] + 1)*jmin + imin)];
-            double y_correction = COORD[6*((dims_[0] + 1)*jmin + imin) + 1];
             new_COORD_.resize(num_new_coord, 1e100);
             for (int j = jmin; j < jmax + 1; ++j) {
                 for (int i = imin; i < imax + 1; ++i) {
@@ -150,36 +168,21 @@ namespace Opm
                     // Copy all 6 coordinates for a pillar.
                     std::copy(COORD.begin() + 6*pos, COORD.begin() + 6*(pos + 1), new_COORD_.begin() + 6*new_pos);
                     if (resettoorigin) {
-                        // Substract lowest x value from all X-coords, similarly for y, and truncate in z-direction
-                      new_COORD_[6*new_pos]     -= x_correction;
-                      new_COORD_[6*new_pos + 1] -= y_correction;
-                      new_COORD_[6*new_pos + 2]  = 0;
-                      new_COORD_[6*new_pos + 3] -= x_correction;
-                      new_COORD_[6*new_pos + 4] -= y_correction;
-                      new_COORD_[6*new_pos + 5]  = zmax-zmin;
+                        // Truncate the pillar in z-direction.
+                        truncatePillar(&new_COORD_[6*new_pos], zmin, zmax);
                     }
                 }
             }
-
-            // Get the z limits, check if they must be changed to make a shoe-box.
-            // This means that zmin must be greater than or equal to the highest
-            // coordinate of the bottom surface, while zmax must be less than or
-            // equal to the lowest coordinate of the top surface.
-            int layersz = 8*dims_[0]*dims_[1];
-            const std::vector<double>& ZCORN = parser_.getFloatingPointValue("ZCORN");
-            int num_zcorn = ZCORN.size();
-            if (num_zcorn != layersz*dims_[2]) {
-                std::cerr << "Error! ZCORN size (" << ZCORN.size() << ") not consistent with SPECGRID\n";
-                throw std::runtime_error("Inconsistent ZCORN and SPECGRID.");
-            }
-
-            zmin = std::max(zmin, botmax_);
-            zmax = std::min(zmax, topmin_);
-            if (zmin >= zmax) {
-                std::cerr << "Error: zmin >= zmax (zmin = " << zmin << ", zmax = " << zmax << ")\n";
-                throw std::runtime_error("zmin >= zmax");
+            if (resettoorigin) {
+                // Move the first pillar to the origin.
+                const double x_correction = new_COORD_[0];
+                const double y_correction = new_COORD_[1];
+                for (int i = 0; i < num_new_coord; i += 3) {
+                    new_COORD_[i]     -= x_correction;
+                    new_COORD_[i + 1] -= y_correction;
+                    new_COORD_[i + 2] -= zmin;
+                }
             }
-            std::cout << "Chopping subsample,  i: (" << imin << "--" << imax << ")  j: (" << jmin << "--" << jmax << ")   z: (" << zmin << "--" << zmax << ")" <<  std::endl;
 
             // We must find the maximum and minimum k value for the given z limits.
             // First, find the first layer with a z-coordinate strictly above zmin.
@@ -330,6 +333,25 @@ namespace Opm
         std::vector<int> new_to_old_cell_;
 
 
+        // Let the pillar run from zmin to zmax, keeping its direction.
+        static void truncatePillar(double* pillar, double zmin, double zmax)
+        {
+            const double length = pillar[5] - pillar[2];
+            if (length != 0.0) {
+                const double bot_weight = (zmin - pillar[2])/length;
+                const double top_weight = (zmax - pillar[2])/length;
+                for (int dd = 0; dd < 2; ++dd) {
+                    const double start = pillar[dd];
+                    const double slope = pillar[3 + dd] - start;
+                    pillar[dd]     = start + bot_weight*slope;
+                    pillar[3 + dd] = start + top_weight*slope;
+                }
+            }
+            pillar[2] = zmin;
+            pillar[5] = zmax;
+        }
+
+
         template <typename T>
         void outputField(std::ostream& os,
                          const std::vector<T>& field,
-- 
2.43.0


From 2c8ed4f7ab7105eefaee7754180e8e714d59e2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:48 +0000
Subject: [PATCH 112/146] fix: CornerPointChopper writes all digits of
 coordinates and properties

---
 opm/core/io/eclipse/CornerpointChopper.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/io/eclipse/CornerpointChopper.hpp b/opm/core/io/eclipse/CornerpointChopper.hpp
index 24c67e4..abc6d04 100644
--- a/opm/core/io/eclipse/CornerpointChopper.hpp
+++ b/opm/core/io/eclipse/CornerpointChopper.hpp
@@ -284,6 +284,7 @@ namespace Opm
                 std::cerr << "Could not open file " << filename << "\n";
                 throw std::runtime_error("Could not open output file.");
             }
+            out.precision(17); // Enough to represent any double exactly.
             out << "SPECGRID\n" << new_dims_[0] << ' ' << new_dims_[1] << ' ' << new_dims_[2]
                 << " 1 F\n/\n\n";
             out << "COORD\n";
-- 
2.43.0


From 5e42ee3fae313dc2cf0cbac896566c0417c822c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:01 +0000
Subject: [PATCH 113/146] fix: writeVagFormat writes the entity counts in the
 layout that readVagGrid reads

---
 opm/core/io/vag/vag.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/opm/core/io/vag/vag.cpp b/opm/core/io/vag/vag.cpp
index 75854a2..eeee36d 100644
--- a/opm/core/io/vag/vag.cpp
+++ b/opm/core/io/vag/vag.cpp
@@ -373,15 +373,15 @@ namespace Opm
     void writeVagFormat(std::ostream& os,Opm::VAG& vag_grid){
 	using namespace std;
 	os << "File in the Vag grid format\n";
-        os << "Number of vertices " ;
+        os << "Number of vertices\n" ;
         os << vag_grid.number_of_vertices << endl;;
-        os <<"Number of control volume ";
+        os <<"Number of control volume\n";
         os << vag_grid.number_of_volumes << endl;
-        os <<"Number of faces " ;
+        os <<"Number of faces\n" ;
         os << vag_grid.number_of_faces << endl;
-        os <<"Number of edges " ;
+        os <<"Number of edges\n" ;
         os << vag_grid.number_of_edges << endl;
-        os <<"Vertices      "   << vag_grid.vertices.size() << endl;
+        os <<"Vertices      "   << vag_grid.vertices.size()/3 << endl;
         writeVector(os, vag_grid.vertices,3);
         os << "Volumes->faces   " << vag_grid.volumes_to_faces.pos.size()-1 << endl;
         writePosStruct(os, vag_grid.volumes_to_faces);        
-- 
2.43.0


From e59a2e1d313273c6522b89df3005e4d372d8bf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:01 +0000
Subject: [PATCH 114/146] fix: writeVagFormat writes all digits of the vertex
 coordinates

---
 opm/core/io/vag/vag.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/io/vag/vag.cpp b/opm/core/io/vag/vag.cpp
index eeee36d..d218611 100644
--- a/opm/core/io/vag/vag.cpp
+++ b/opm/core/io/vag/vag.cpp
@@ -372,6 +372,7 @@ namespace Opm
     
     void writeVagFormat(std::ostream& os,Opm::VAG& vag_grid){
 	using namespace std;
+	os.precision(17); // Enough to represent any double exactly.
 	os << "File in the Vag grid format\n";
         os << "Number of vertices\n" ;
         os << vag_grid.number_of_vertices << endl;;
-- 
2.43.0


From 8d0e399eb4eed0b530e7ab2b8a3e5740ef3d5894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:01 +0000
Subject: [PATCH 115/146] fix: writeVector writes n numbers on each line

---
 opm/core/io/vag/vag.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/io/vag/vag.hpp b/opm/core/io/vag/vag.hpp
index 412e4ea..4611de3 100644
--- a/opm/core/io/vag/vag.hpp
+++ b/opm/core/io/vag/vag.hpp
@@ -125,7 +125,7 @@ namespace Opm
         const sz_t nn = n;
 
         for (sz_t i = 0; i < vec.size(); ++i) {
-            os << vec[i] << (((i % nn) == 0) ? '\n' : ' ');
+            os << vec[i] << (((i % nn) == nn - 1) ? '\n' : ' ');
         }
 
         if ((vec.size() % nn) != 0) {
-- 
2.43.0


From b38eba362da033bfd950949f3e2d4cefc44a143a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:01 +0000
Subject: [PATCH 116/146] fix: reading or converting into a VAG object that was
 used before replaces its mappings

---
 opm/core/io/vag/vag.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/io/vag/vag.cpp b/opm/core/io/vag/vag.cpp
index d218611..04db4fc 100644
--- a/opm/core/io/vag/vag.cpp
+++ b/opm/core/io/vag/vag.cpp
@@ -52,6 +52,7 @@ namespace Opm
 	//PosStruct pos_struct;
 	pos_struct.pos.resize(n+1);
 	pos_struct.pos[0]=0;
+	pos_struct.value.clear();
 	for(int i=0;i< n;++i){
 	    int number;
 	    is >> number ;
@@ -356,6 +357,8 @@ namespace Opm
         // fill face_to_egdes
 	vag_grid.number_of_edges=edges.size();
 	vag_grid.faces_to_edges.pos.resize(vag_grid.number_of_faces+1);
+	vag_grid.faces_to_edges.pos[0]=0;
+	vag_grid.faces_to_edges.value.resize(0);
 	for(int i=0;i < grid.number_of_faces;++i){
             int ne=grid.face_nodepos[i+1]-grid.face_nodepos[i];
 	    vag_grid.faces_to_edges.pos[i+1]=vag_grid.faces_to_edges.pos[i]+ne;	    
-- 
2.43.0


From 11d13c6615dde892d27c140b5c08e469de04b5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:01 +0000
Subject: [PATCH 117/146] fix: readVagGrid does not add a value that is not in
 the file to the material

---
 opm/core/io/vag/vag.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opm/core/io/vag/vag.cpp b/opm/core/io/vag/vag.cpp
index 04db4fc..3c2eab2 100644
--- a/opm/core/io/vag/vag.cpp
+++ b/opm/core/io/vag/vag.cpp
@@ -181,9 +181,9 @@ namespace Opm
 		    is >> number;
 		    cout << "Material number  " << number << endl;
 		    // we read all the rest into doubles		
-		    while(!is.eof()){
-			double value;
-			is >> value;
+		    vag_grid.material.clear();
+		    double value;
+		    while(is >> value){
 			//cout << value << endl;
 			vag_grid.material.push_back(value);
 		    }
-- 
2.43.0


From 21483e30d5ed73b8d69310147af3089a0fa5fb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:25 +0000
Subject: [PATCH 118/146] fix: readVagGrid reports incomplete and malformed
 files instead of reading for ever or using unset counts

---
 opm/core/io/vag/vag.cpp | 58 +++++++++++++++++++++++------------------
 opm/core/io/vag/vag.hpp |  4 +++
 2 files changed, 37 insertions(+), 25 deletions(-)

diff --git a/opm/core/io/vag/vag.cpp b/opm/core/io/vag/vag.cpp
index 3c2eab2..154889a 100644
--- a/opm/core/io/vag/vag.cpp
+++ b/opm/core/io/vag/vag.cpp
@@ -36,6 +36,7 @@
 #include "config.h"
 #include <opm/core/io/vag/vag.hpp>
 #include <opm/core/grid/cornerpoint_grid.h>	 	      
+#include <opm/core/utility/ErrorMacros.hpp>
 #include <iostream>
 #include <fstream>
 #include <string>
@@ -47,6 +48,19 @@
 #include <map>
 namespace Opm
 {
+    namespace
+    {
+	// Read the number of items to follow.
+	int readNumber(std::istream& is){
+	    int number = -1;
+	    is >> number;
+	    if(!is || number < 0){
+		THROW("Vag grid: expected a number of items.");
+	    }
+	    return number;
+	}
+    }
+
     void readPosStruct(std::istream& is,int n,PosStruct& pos_struct){
 	using namespace std;
 	//PosStruct pos_struct;
@@ -54,13 +68,15 @@ namespace Opm
 	pos_struct.pos[0]=0;
 	pos_struct.value.clear();
 	for(int i=0;i< n;++i){
-	    int number;
-	    is >> number ;
+	    int number = readNumber(is);
 	    //cout <<number << endl;
 	    pos_struct.pos[i+1]=pos_struct.pos[i]+number;
 	    for(int j=0;j< number;++j){
 		int value;
 		is >> value;
+		if(!is){
+		    THROW("Vag grid: incomplete or malformed mapping.");
+		}
 		//	cout << value << " ";
 		pos_struct.value.push_back(value);
 	    }
@@ -93,9 +109,8 @@ namespace Opm
     void readVagGrid(std::istream& is,Opm::VAG& vag_grid){
 	using namespace std;
 	using namespace Opm;
-	while (!is.eof()) {
-	    string keyword;
-	    is >> keyword;	
+	string keyword;
+	while (is >> keyword) {
 	    //cout << keyword<< endl;
 	    if(keyword == "Number"){
 		string stmp;
@@ -104,8 +119,7 @@ namespace Opm
 		    string entity;
 		    is >> entity;
 		    getline(is,stmp);
-		    int number;
-		    is >> number;
+		    int number = readNumber(is);
 		    if(entity=="vertices"){
 			vag_grid.number_of_vertices=number;
 		    }else if((entity=="volumes") || (entity=="control")){
@@ -117,39 +131,33 @@ namespace Opm
 		    }	
 		    cout << "Found Number of: " << entity <<" " << number << endl;		
 		} else {
-		    cerr << "Wrong format: Not of after Number" << endl;
-		    return;
+		    THROW("Wrong format: Not of after Number");
 		}
 	    }else{
 		// read geometry defined by vertices
 		if(keyword=="Vertices"){
-		    int number;
-		    is >> number;	   	    
+		    int number = readNumber(is);
 		    vag_grid.vertices.resize(3*number);// assume 3d data
 		    readVector(is,vag_grid.vertices);
 		}
 		// here starts the reding of all pos structures
 		else if(keyword=="Volumes->Faces" || keyword=="Volumes->faces"){
 		    //vag_grid.volumes_to_faces=
-		    int number;
-		    is >> number;	
+		    int number = readNumber(is);
 		    readPosStruct(is,number,vag_grid.volumes_to_faces);
 		    cout << "Volumes->Faces: Number of " << number << endl;
 		}else if(keyword=="Faces->edges" || keyword=="Faces->Edges" ||  keyword=="Faces->Edgess"){
-		    int number;
-		    is >> number;	   
+		    int number = readNumber(is);
 		    //vag_grid.volumes_to_faces=
 		    readPosStruct(is,number,vag_grid.faces_to_edges);
 		    cout << "Faces->edges: Number of " << number << endl;
 		}else if(keyword=="Faces->Vertices" || keyword=="Faces->vertices"){
-		    int number;
-		    is >> number;	   
+		    int number = readNumber(is);
 		    //vag_grid.volumes_to_faces=
 		    readPosStruct(is,number,vag_grid.faces_to_vertices);
 		    cout << "Faces->Vertices: Number of " << number << endl;   
 		}else if(keyword=="Volumes->Vertices" || keyword=="Volumes->Verticess"){
-		    int number;
-		    is >> number;	   
+		    int number = readNumber(is);
 		    //vag_grid.volumes_to_faces=
 		    readPosStruct(is,number,vag_grid.volumes_to_vertices);
 		    cout << "Volumes->Vertices: Number of " << number << endl;   
@@ -157,18 +165,16 @@ namespace Opm
 	    
 		//  read simple mappings
 		else if(keyword=="Edge" || keyword=="Edges"){
-		    int number;
-		    is >> number;	   	    
+		    int number = readNumber(is);
 		    vag_grid.edges.resize(2*number);
 		    readVector(is,vag_grid.edges);
 		    cout << "Edges: Number of " << number << endl;
 		}else if(keyword=="Faces->Volumes" || keyword=="Faces->Control"){
-		    int number;
 		    if(keyword=="Faces->Control"){
 			string vol;
 			is >> vol;
 		    }
-		    is >> number;
+		    int number = readNumber(is);
 		    vag_grid.faces_to_volumes.resize(2*number);
 		    readVector(is,vag_grid.faces_to_volumes);
 		    cout << "Faces->Volumes: Number of " << number << endl;   
@@ -177,8 +183,7 @@ namespace Opm
 		else if(keyword=="Material"){
 		    string snum;
 		    is >> snum;
-		    int number;
-		    is >> number;
+		    int number = readNumber(is);
 		    cout << "Material number  " << number << endl;
 		    // we read all the rest into doubles		
 		    vag_grid.material.clear();
@@ -187,6 +192,9 @@ namespace Opm
 			//cout << value << endl;
 			vag_grid.material.push_back(value);
 		    }
+		    if(!is.eof()){
+			THROW("Vag grid: malformed material.");
+		    }
 		}else{
 		    //cout << "keyword;
 		}
diff --git a/opm/core/io/vag/vag.hpp b/opm/core/io/vag/vag.hpp
index 4611de3..0b61efa 100644
--- a/opm/core/io/vag/vag.hpp
+++ b/opm/core/io/vag/vag.hpp
@@ -39,6 +39,7 @@
 
 
 #include <opm/core/grid.h>
+#include <opm/core/utility/ErrorMacros.hpp>
 #include <istream>
 #include <ostream>
 #include <string>
@@ -111,6 +112,9 @@ namespace Opm
 	for(int i=0;i< int(vec.size());++i){
 	    is >> vec[i];
 	}
+	if(!is){
+	    THROW("Vag grid: incomplete or malformed list of numbers.");
+	}
     }
     /**
        Function to write a vector of some type from a stream.
-- 
2.43.0


From 5992267b3a39925d34f78fe15cda0424b7778f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:00 +0000
Subject: [PATCH 119/146] fix: multiscale solver: coarse system of two blocks
 was singular

The only interface between two blocks has a zero diagonal entry, so
doubling it did not remove the zero eigenvalue.
---
 opm/core/pressure/msmfem/ifsh_ms.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/opm/core/pressure/msmfem/ifsh_ms.c b/opm/core/pressure/msmfem/ifsh_ms.c
index 2a08797..6f5464c 100644
--- a/opm/core/pressure/msmfem/ifsh_ms.c
+++ b/opm/core/pressure/msmfem/ifsh_ms.c
@@ -487,8 +487,13 @@ ifsh_ms_assemble(const double        *src   ,
         p2 += nconn * nconn;
     }
 
-    /* Remove zero eigenvalue */
-    h->A->sa[0] *= 2;
+    /* Remove zero eigenvalue.  The system of a single degree of freedom
+     * (i.e., two blocks) has no other contribution. */
+    if (h->A->m > 1) {
+        h->A->sa[0] *= 2;
+    } else {
+        h->A->sa[0]  = 1.0;
+    }
 }
 
 
-- 
2.43.0


From 82b194f69ebc834b96bc7f010ade230bc331327c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:21 +0000
Subject: [PATCH 120/146] fix: multiscale solver: mobilities were applied to
 the preceding cell's inner product

The inner product of every cell was scaled by the mobility of the next
cell, and the last cell's was not scaled at all.
---
 opm/core/pressure/msmfem/coarse_sys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/pressure/msmfem/coarse_sys.c b/opm/core/pressure/msmfem/coarse_sys.c
index ec746e1..76a86e6 100644
--- a/opm/core/pressure/msmfem/coarse_sys.c
+++ b/opm/core/pressure/msmfem/coarse_sys.c
@@ -1204,7 +1204,7 @@ Binv_scale_mobility(int nc, struct coarse_sys_meta *m,
     int c, i;
 
     for (c = i = 0; c < nc; c++) {
-        for (; i < m->pconn2[c]; i++) {
+        for (; i < m->pconn2[c + 1]; i++) {
             Binv[i] *= totmob[c];
         }
     }
-- 
2.43.0


From a02f9b1113f685e7e3f3266eea127b91016bbcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:34 +0000
Subject: [PATCH 121/146] fix: multiscale solver: mobilities entered the coarse
 system twice

The cell contributions to the coarse inner products were formed from
mobility-scaled inner products and then weighted by inverse mobilities
again in coarse_sys_compute_Binv().
---
 opm/core/pressure/msmfem/coarse_sys.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/opm/core/pressure/msmfem/coarse_sys.c b/opm/core/pressure/msmfem/coarse_sys.c
index 76a86e6..644cc6e 100644
--- a/opm/core/pressure/msmfem/coarse_sys.c
+++ b/opm/core/pressure/msmfem/coarse_sys.c
@@ -1434,23 +1434,24 @@ coarse_sys_construct(struct UnstructuredGrid *g, const int   *p,
 {
     int                     cf;
     size_t                  nlocf;
-    double                 *Binv, *w;
+    double                 *Binv, *mobBinv, *w;
     struct coarse_sys_meta *m;
     struct bf_asm_data     *bf_asm;
     struct coarse_sys      *sys;
 
-    sys = NULL;  bf_asm = NULL;  Binv = NULL;  w = NULL;
+    sys = NULL;  bf_asm = NULL;  Binv = NULL;  mobBinv = NULL;  w = NULL;
 
     m = coarse_sys_meta_construct(g, p, ct);
 
     if (m != NULL) {
-        Binv   = compute_fs_ip(g, perm, m);
-        w      = coarse_weight(g, ct->nblocks, p, m, perm, src);
-        bf_asm = bf_asm_data_allocate(g, m);
-        sys    = coarse_sys_allocate(ct, m);
+        Binv    = compute_fs_ip(g, perm, m);
+        mobBinv = compute_fs_ip(g, perm, m);
+        w       = coarse_weight(g, ct->nblocks, p, m, perm, src);
+        bf_asm  = bf_asm_data_allocate(g, m);
+        sys     = coarse_sys_allocate(ct, m);
     }
 
-    if ((Binv != NULL) && (w != NULL) &&
+    if ((Binv != NULL) && (mobBinv != NULL) && (w != NULL) &&
         (bf_asm != NULL) && (sys != NULL)) {
 
         /* Provide reverse BF->face mapping for fs flux reconstruction */
@@ -1463,20 +1464,20 @@ coarse_sys_construct(struct UnstructuredGrid *g, const int   *p,
         vector_zero(g->cell_facepos[ g->number_of_cells ], bf_asm->gpress);
 
         /* Include mobility effects (multiple phases) */
-        Binv_scale_mobility(g->number_of_cells, m, totmob, Binv);
+        Binv_scale_mobility(g->number_of_cells, m, totmob, mobBinv);
 
         /* Discretise flow equation on fine scale */
         hybsys_schur_comp_symm(g->number_of_cells, g->cell_facepos,
-                               Binv, bf_asm->fsys);
+                               mobBinv, bf_asm->fsys);
 
         for (cf = 0; cf < ct->nfaces; cf++) {
             if (m->bfno[cf] >= 0) {
                 nlocf = enumerate_local_dofs(cf, g, ct, m);
 
-                assemble_local_system(cf, nlocf, g, Binv, w,
+                assemble_local_system(cf, nlocf, g, mobBinv, w,
                                       ct, m, bf_asm);
 
-                solve_local_system(cf, g, Binv, ct, m,
+                solve_local_system(cf, g, mobBinv, ct, m,
                                    bf_asm, linsolve);
 
                 store_basis_function(cf, ct, m, bf_asm, sys);
@@ -1485,6 +1486,7 @@ coarse_sys_construct(struct UnstructuredGrid *g, const int   *p,
             }
         }
 
+        /* Mobilities enter these in coarse_sys_compute_Binv() */
         coarse_sys_compute_cell_ip(g->number_of_cells,
                                    m->max_ngconn,
                                    ct->nblocks,
@@ -1496,7 +1498,7 @@ coarse_sys_construct(struct UnstructuredGrid *g, const int   *p,
 
     bf_asm_data_deallocate(bf_asm);
 
-    free(w);    free(Binv);
+    free(w);    free(mobBinv);    free(Binv);
     coarse_sys_meta_destroy(m);
 
     return sys;
-- 
2.43.0


From 76453ee67cfb92ed52ff4b80542c7baef5b7874e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:24 +0000
Subject: [PATCH 122/146] fix: EclipseGridInspector: limits and dips of grids
 dimensioned by DIMENS

The constructor accepts DIMENS in place of SPECGRID, but getGridLimits()
and so cellDips() insisted on SPECGRID.
---
 opm/core/io/eclipse/EclipseGridInspector.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/opm/core/io/eclipse/EclipseGridInspector.cpp b/opm/core/io/eclipse/EclipseGridInspector.cpp
index fed61a8..f0d7b71 100644
--- a/opm/core/io/eclipse/EclipseGridInspector.cpp
+++ b/opm/core/io/eclipse/EclipseGridInspector.cpp
@@ -259,10 +259,8 @@ void EclipseGridInspector::checkLogicalCoords(int i, int j, int k) const
 
 std::tr1::array<double, 6> EclipseGridInspector::getGridLimits() const
 {
-    if (! (parser_.hasField("COORD") && parser_.hasField("ZCORN") && parser_.hasField("SPECGRID")) ) {
-        throw std::runtime_error("EclipseGridInspector: Grid does not have SPECGRID, COORD, and ZCORN, can't find dimensions.");
-    }
-
+    // COORD, ZCORN and the dimensions (from SPECGRID or DIMENS) were
+    // found by the constructor.
     std::vector<double> coord = parser_.getFloatingPointValue("COORD");
     std::vector<double> zcorn = parser_.getFloatingPointValue("ZCORN");
 
-- 
2.43.0


From e42eb3eca76d8d2391c6e9c1a071070e792eb9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:41 +0000
Subject: [PATCH 123/146] fix: EclipseGridInspector: getGridLimits read beyond
 short COORD fields

Check the fields' sizes as the other queries do.
---
 opm/core/io/eclipse/EclipseGridInspector.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/opm/core/io/eclipse/EclipseGridInspector.cpp b/opm/core/io/eclipse/EclipseGridInspector.cpp
index f0d7b71..8c84acd 100644
--- a/opm/core/io/eclipse/EclipseGridInspector.cpp
+++ b/opm/core/io/eclipse/EclipseGridInspector.cpp
@@ -271,6 +271,13 @@ std::tr1::array<double, 6> EclipseGridInspector::getGridLimits() const
 
 
     int pillars = (logical_gridsize_[0]+1) * (logical_gridsize_[1]+1);
+    if (6*pillars != int(coord.size())) {
+        throw std::runtime_error("Wrong size of COORD field.");
+    }
+    int num_cells = logical_gridsize_[0]*logical_gridsize_[1]*logical_gridsize_[2];
+    if (8*num_cells != int(zcorn.size())) {
+        throw std::runtime_error("Wrong size of ZCORN field");
+    }
 
     for (int pillarindex = 0; pillarindex < pillars; ++pillarindex) {
         if        (coord[pillarindex * 6 + 0] > xmax)
-- 
2.43.0


From dacd82be0f3b8c7084c4298b396d36b4529592ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:10 +0000
Subject: [PATCH 124/146] fix: EclipseGridInspector: cellZvals read outside
 ZCORN for cells outside the grid

Check the coordinates as the other queries do.
---
 opm/core/io/eclipse/EclipseGridInspector.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/io/eclipse/EclipseGridInspector.cpp b/opm/core/io/eclipse/EclipseGridInspector.cpp
index 8c84acd..3c4263d 100644
--- a/opm/core/io/eclipse/EclipseGridInspector.cpp
+++ b/opm/core/io/eclipse/EclipseGridInspector.cpp
@@ -317,6 +317,7 @@ std::tr1::array<int, 3> EclipseGridInspector::gridSize() const
 
 std::tr1::array<double, 8> EclipseGridInspector::cellZvals(int i, int j, int k) const
 {
+    checkLogicalCoords(i, j, k);
     // Get the zcorn field.
     const std::vector<double>& z = parser_.getFloatingPointValue("ZCORN");
     int num_cells = logical_gridsize_[0]*logical_gridsize_[1]*logical_gridsize_[2];
-- 
2.43.0


From 6b33645e34c76e965523fa08c6228b0b70013236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:49 +0000
Subject: [PATCH 125/146] fix: hybsys_define_globconn() fails when it cannot
 store the wells

It returned the structure of a system without wells instead.
---
 opm/core/pressure/mimetic/hybsys_global.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/opm/core/pressure/mimetic/hybsys_global.c b/opm/core/pressure/mimetic/hybsys_global.c
index c73e0c6..f1d7c05 100644
--- a/opm/core/pressure/mimetic/hybsys_global.c
+++ b/opm/core/pressure/mimetic/hybsys_global.c
@@ -295,11 +295,15 @@ hybsys_define_globconn(struct UnstructuredGrid *G, well_t *W)
 
         if (nw > 0) {
             wia = allocate_well_dofset(G, W);
-            if (wia == NULL) { nw = 0; }
+            if (wia == NULL) { nw = 0; ok = 0; }
         }
     }
 
-    A = csrmatrix_new_count_nnz(G->number_of_faces + nw);
+    /* A system without the wells is no substitute for one with them. */
+    A = NULL;
+    if (ok) {
+        A = csrmatrix_new_count_nnz(G->number_of_faces + nw);
+    }
 
     if (A != NULL) {
         count_conn_per_row_grid(G, A);
-- 
2.43.0


From 276d5d8e8f30dab4c2adabea75b20dbb5923e697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:49 +0000
Subject: [PATCH 126/146] fix: csrmatrix_new_count_nnz() does not free
 indeterminate pointers on failure

---
 opm/core/linalg/sparse_sys.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/opm/core/linalg/sparse_sys.c b/opm/core/linalg/sparse_sys.c
index 62c7dce..f4a2a97 100644
--- a/opm/core/linalg/sparse_sys.c
+++ b/opm/core/linalg/sparse_sys.c
@@ -37,6 +37,8 @@ csrmatrix_new_count_nnz(size_t m)
 
     new = malloc(1 * sizeof *new);
     if (new != NULL) {
+        new->ja = NULL;
+        new->sa = NULL;
         new->ia = malloc((m + 1) * sizeof *new->ia);
 
         if (new->ia != NULL) {
@@ -44,9 +46,6 @@ csrmatrix_new_count_nnz(size_t m)
 
             new->m   = m;
             new->nnz = 0;
-
-            new->ja  = NULL;
-            new->sa  = NULL;
         } else {
             csrmatrix_delete(new);
             new = NULL;
-- 
2.43.0


From ed0faa82e2af3aa7eae27acc03b17b86ff24166f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:05 +0000
Subject: [PATCH 127/146] fix: create_wells() survives failure to allocate its
 management structure

---
 opm/core/wells/wells.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opm/core/wells/wells.c b/opm/core/wells/wells.c
index 2bc47d5..c083c9b 100644
--- a/opm/core/wells/wells.c
+++ b/opm/core/wells/wells.c
@@ -410,11 +410,12 @@ destroy_wells(struct Wells *W)
     if (W != NULL) {
         m = W->data;
 
-        for (w = 0; w < m->well_cpty; w++) {
+        /* No wells if management structure was never created. */
+        for (w = 0; (m != NULL) && (w < m->well_cpty); w++) {
             well_controls_destroy(W->ctrls[w]);
         }
 
-        for (w = 0; w < m->well_cpty; w++) {
+        for (w = 0; (m != NULL) && (w < m->well_cpty); w++) {
             free(W->name[w]);
         }
 
-- 
2.43.0


From 2c766df46193638652d0ab013cffcb198a0eb396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:05 +0000
Subject: [PATCH 128/146] fix: wells_reserve() releases controls of wells it
 could not complete

---
 opm/core/wells/wells.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opm/core/wells/wells.c b/opm/core/wells/wells.c
index c083c9b..0042a65 100644
--- a/opm/core/wells/wells.c
+++ b/opm/core/wells/wells.c
@@ -260,7 +260,10 @@ initialise_new_wells(int nwells, struct Wells *W)
     }
 
     if (! ok) {
-        for (; w < nwells; w++) {
+        /* Capacity is unchanged, so nobody else releases these. */
+        while (w > m->well_cpty) {
+            w -= 1;
+            well_controls_destroy(W->ctrls[w]);
             W->ctrls[w] = NULL;
         }
     }
-- 
2.43.0


From ff8a737d57ec52c6d74c5e66e7b12f50d665bf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:27 +0000
Subject: [PATCH 129/146] fix: compr_src keeps its terms when it cannot grow

The tables were freed, but still referred to, if one of them could not be
enlarged.
---
 opm/core/pressure/tpfa/compr_source.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/opm/core/pressure/tpfa/compr_source.c b/opm/core/pressure/tpfa/compr_source.c
index eef23bb..b0f8e4f 100644
--- a/opm/core/pressure/tpfa/compr_source.c
+++ b/opm/core/pressure/tpfa/compr_source.c
@@ -50,14 +50,15 @@ expand_source_tables(int alloc, struct compr_src *src)
     v = realloc(src->flux      , alloc * 1            * sizeof *v);
     s = realloc(src->saturation, alloc * src->nphases * sizeof *s);
 
-    if ((c == NULL) || (v == NULL) || (s == NULL)) {
-
-        free(s);  free(v);   free(c);
+    /* Old blocks are gone wherever realloc() succeeded. */
+    if (c != NULL) { src->cell       = c; }
+    if (v != NULL) { src->flux       = v; }
+    if (s != NULL) { src->saturation = s; }
 
+    if ((c == NULL) || (v == NULL) || (s == NULL)) {
         alloc = 0;
     } else {
-        src->cell = c;  src->cpty       = alloc;
-        src->flux = v;  src->saturation = s;
+        src->cpty = alloc;
     }
 
     return alloc;
-- 
2.43.0


From 8e53b24a953e08e430af62f0a78f95685665342d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:27 +0000
Subject: [PATCH 130/146] fix: compr_bc keeps its conditions when it cannot
 grow

The tables were freed, but still referred to, if one of them could not be
enlarged.
---
 opm/core/pressure/tpfa/compr_bc.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/opm/core/pressure/tpfa/compr_bc.c b/opm/core/pressure/tpfa/compr_bc.c
index 4832b58..94647c7 100644
--- a/opm/core/pressure/tpfa/compr_bc.c
+++ b/opm/core/pressure/tpfa/compr_bc.c
@@ -53,16 +53,18 @@ expand_source_tables(int alloc, struct compr_bc *bc)
     v = realloc(bc->flux      , alloc * 1           * sizeof *v);
     s = realloc(bc->saturation, alloc * bc->nphases * sizeof *s);
 
+    /* Old blocks are gone wherever realloc() succeeded. */
+    if (t != NULL) { bc->type       = t; }
+    if (f != NULL) { bc->face       = f; }
+    if (p != NULL) { bc->press      = p; }
+    if (v != NULL) { bc->flux       = v; }
+    if (s != NULL) { bc->saturation = s; }
+
     if ((t == NULL) || (f == NULL) ||
         (p == NULL) || (v == NULL) || (s == NULL)) {
-
-        free(s);  free(v);  free(p);  free(f);  free(t);
-
         alloc = 0;
     } else {
-        bc->type       = t;  bc->face = f;
-        bc->press      = p;  bc->flux = v;
-        bc->saturation = s;  bc->cpty = alloc;
+        bc->cpty = alloc;
     }
 
     return alloc;
-- 
2.43.0


From ee5ef40ac0707c46681d8f3b8c733f32e1327c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:27 +0000
Subject: [PATCH 131/146] fix: TransportSource keeps its sources when it cannot
 grow

The tables were freed, but still referred to, if one of them could not be
enlarged.
---
 opm/core/transport/implicit/transport_source.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/opm/core/transport/implicit/transport_source.c b/opm/core/transport/implicit/transport_source.c
index 8daf198..930e008 100644
--- a/opm/core/transport/implicit/transport_source.c
+++ b/opm/core/transport/implicit/transport_source.c
@@ -54,17 +54,19 @@ expand_source_tables(int alloc, struct TransportSource *src)
     s = realloc(src->saturation, alloc * src->nphase * sizeof *s);
     z = realloc(src->surfvolume, alloc * src->nphase * sizeof *z);
 
+    /* Old blocks are gone wherever realloc() succeeded. */
+    if (c != NULL) { src->cell       = c; }
+    if (p != NULL) { src->pressure   = p; }
+    if (v != NULL) { src->flux       = v; }
+    if (s != NULL) { src->saturation = s; }
+    if (z != NULL) { src->surfvolume = z; }
+
     if ((c == NULL) ||
         (p == NULL) || (v == NULL) ||
         (s == NULL) || (z == NULL)) {
-
-        free(z);  free(s);  free(v);  free(p);   free(c);
-
         alloc = 0;
     } else {
-        src->cell       = c;  src->cpty       = alloc;
-        src->pressure   = p;  src->flux       = v;
-        src->saturation = s;  src->surfvolume = z;
+        src->cpty = alloc;
     }
 
     return alloc;
-- 
2.43.0


From 26ad4ed326b3ed0c961277482c2a1868955b12c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:21 +0000
Subject: [PATCH 132/146] fix: cfs_tpfa_destroy() releases the
 face-to-half-face map

---
 opm/core/pressure/tpfa/cfs_tpfa.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/pressure/tpfa/cfs_tpfa.c b/opm/core/pressure/tpfa/cfs_tpfa.c
index 528e1e9..b32b531 100644
--- a/opm/core/pressure/tpfa/cfs_tpfa.c
+++ b/opm/core/pressure/tpfa/cfs_tpfa.c
@@ -132,6 +132,7 @@ impl_deallocate(struct cfs_tpfa_impl *pimpl)
 {
     if (pimpl != NULL) {
         free              (pimpl->ddata);
+        free              (pimpl->f2hf);
         deallocate_densrat(pimpl->ratio);
     }
 
-- 
2.43.0


From a7e86ece1016edac31b0023703978df2e4de30c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:37 +0000
Subject: [PATCH 133/146] fix: block adjacency list does not lose its last
 entry when it cannot insert

---
 opm/core/pressure/msmfem/coarse_conn.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/opm/core/pressure/msmfem/coarse_conn.c b/opm/core/pressure/msmfem/coarse_conn.c
index 065bece..70d8093 100644
--- a/opm/core/pressure/msmfem/coarse_conn.c
+++ b/opm/core/pressure/msmfem/coarse_conn.c
@@ -219,6 +219,7 @@ block_neighbours_insert_neighbour(int b, int fconn, int expct_nconn,
 /* ---------------------------------------------------------------------- */
 {
     int i, j, p, t, nmove, ret;
+    struct block_neighbour *bn;
 
     assert (bns != NULL);
 
@@ -254,16 +255,18 @@ block_neighbours_insert_neighbour(int b, int fconn, int expct_nconn,
             }
 
             if (ret >= 0) {
-                if (i < bns->nneigh) {
-                    nmove = bns->nneigh - i;
+                bn = block_neighbour_allocate(expct_nconn);
 
-                    memmove(bns->neigh + i + 1, bns->neigh + i + 0,
-                            nmove * sizeof *bns->neigh);
-                }
+                if (bn != NULL) {
+                    if (i < bns->nneigh) {
+                        nmove = bns->nneigh - i;
+
+                        memmove(bns->neigh + i + 1, bns->neigh + i + 0,
+                                nmove * sizeof *bns->neigh);
+                    }
 
-                bns->neigh[i] = block_neighbour_allocate(expct_nconn);
+                    bns->neigh[i] = bn;
 
-                if (bns->neigh[i] != NULL) {
                     ret = block_neighbour_insert_fconn(fconn, bns->neigh[i]);
 
                     bns->neigh[i]->b = b;
-- 
2.43.0


From 94320c67e12a97cf406e47fe0706dc3b5fc5f240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:37 +0000
Subject: [PATCH 134/146] fix: coarse_topology_create() returns NULL when block
 faces cannot be derived

---
 opm/core/pressure/msmfem/coarse_conn.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opm/core/pressure/msmfem/coarse_conn.c b/opm/core/pressure/msmfem/coarse_conn.c
index 70d8093..530d57b 100644
--- a/opm/core/pressure/msmfem/coarse_conn.c
+++ b/opm/core/pressure/msmfem/coarse_conn.c
@@ -593,7 +593,11 @@ coarse_topology_create(int nc, int nf, int expct_nconn,
         ncoarse_f = derive_block_faces(nf, nblocks, expct_nconn,
                                        p, neighbours, bns);
 
-        topo = coarse_topology_build(ncoarse_f, nblocks, bns);
+        if (ncoarse_f >= 0) {
+            topo = coarse_topology_build(ncoarse_f, nblocks, bns);
+        } else {
+            topo = NULL;
+        }
 
         for (b = 0; b < nblocks; b++) {
             block_neighbours_deallocate(bns[b]);
-- 
2.43.0


From 2bc8fad48b125881bb71d75f89b9937c8090efab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:37 +0000
Subject: [PATCH 135/146] fix: coarse_topology_build() fails when it cannot
 store the subfaces

---
 opm/core/pressure/msmfem/coarse_conn.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opm/core/pressure/msmfem/coarse_conn.c b/opm/core/pressure/msmfem/coarse_conn.c
index 530d57b..5472cfa 100644
--- a/opm/core/pressure/msmfem/coarse_conn.c
+++ b/opm/core/pressure/msmfem/coarse_conn.c
@@ -539,7 +539,8 @@ coarse_topology_build(int ncoarse_f, int nblk,
 
             new->blkfaces = malloc(nblkf * sizeof *new->blkfaces);
 
-            if (new->blkfaces == NULL) {
+            if ((new->blkfaces == NULL) ||
+                ((nsubf > 0) && (new->subfaces == NULL))) {
                 coarse_topology_destroy(new);
                 new = NULL;
             } else {
-- 
2.43.0


From 2559091029ae75059423697975c2b396c420b572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:48 +0000
Subject: [PATCH 136/146] fix: hybsys_allocate_symm() does not free an
 indeterminate pointer on failure

---
 opm/core/pressure/mimetic/hybsys.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/opm/core/pressure/mimetic/hybsys.c b/opm/core/pressure/mimetic/hybsys.c
index 13da354..746dd73 100644
--- a/opm/core/pressure/mimetic/hybsys.c
+++ b/opm/core/pressure/mimetic/hybsys.c
@@ -49,14 +49,13 @@ hybsys_allocate_symm(int max_nconn, int nc, int nconn_tot)
         new->L   = malloc(nc                    * sizeof *new->L  );
         new->q   = malloc(nc                    * sizeof *new->q  );
         new->F1  = malloc(nconn_tot             * sizeof *new->F1 );
+        new->F2  = new->F1;
 
         if ((new->one == NULL) || (new->r == NULL) || (new->S  == NULL) ||
             (new->L   == NULL) || (new->q == NULL) || (new->F1 == NULL)) {
             hybsys_free(new);
 
             new = NULL;
-        } else {
-            new->F2 = new->F1;
         }
     }
 
-- 
2.43.0


From f94209359f1a8060684adea6e243bfd114e57629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:40 +0000
Subject: [PATCH 137/146] fix: coarse_sys fails when it cannot compute the
 fine-scale inner products

---
 opm/core/pressure/msmfem/coarse_sys.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opm/core/pressure/msmfem/coarse_sys.c b/opm/core/pressure/msmfem/coarse_sys.c
index 644cc6e..f7019b0 100644
--- a/opm/core/pressure/msmfem/coarse_sys.c
+++ b/opm/core/pressure/msmfem/coarse_sys.c
@@ -541,6 +541,8 @@ compute_fs_ip(struct UnstructuredGrid *g, const double *perm,
 
             p2 += nconn * nconn;
         }
+    } else {
+        free(Binv);  Binv = NULL;
     }
 
     free(htrans);
-- 
2.43.0


From 5836629416d7e1eb8d094632df2876ba89d51ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:13 +0000
Subject: [PATCH 138/146] fix: coarse_sys_construct() returns NULL when its
 work arrays cannot be allocated

---
 opm/core/pressure/msmfem/coarse_sys.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/pressure/msmfem/coarse_sys.c b/opm/core/pressure/msmfem/coarse_sys.c
index f7019b0..c4f0129 100644
--- a/opm/core/pressure/msmfem/coarse_sys.c
+++ b/opm/core/pressure/msmfem/coarse_sys.c
@@ -1496,6 +1496,9 @@ coarse_sys_construct(struct UnstructuredGrid *g, const int   *p,
                                    Binv,
                                    m->pb2c, m->b2c,
                                    sys);
+    } else {
+        coarse_sys_destroy(sys);
+        sys = NULL;
     }
 
     bf_asm_data_deallocate(bf_asm);
-- 
2.43.0


From 86cf589b6e3f18dc82b991d06d33d263fb27da77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:14 +0000
Subject: [PATCH 139/146] fix: coarse_sys_allocate() does not free
 indeterminate pointers on failure

---
 opm/core/pressure/msmfem/coarse_sys.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/opm/core/pressure/msmfem/coarse_sys.c b/opm/core/pressure/msmfem/coarse_sys.c
index c4f0129..b662d45 100644
--- a/opm/core/pressure/msmfem/coarse_sys.c
+++ b/opm/core/pressure/msmfem/coarse_sys.c
@@ -831,6 +831,15 @@ coarse_sys_allocate(struct coarse_topology *ct,
 
         assert(nb > 0);
 
+        new->dof2conn    = NULL;
+        new->blkdof_pos  = NULL;
+        new->basis_pos   = NULL;
+        new->cell_ip_pos = NULL;
+        new->blkdof      = NULL;
+        new->basis       = NULL;
+        new->cell_ip     = NULL;
+        new->Binv        = NULL;
+
         alloc_ok = blkdof_fill(ct, m, new);
 
         if (alloc_ok) {
-- 
2.43.0


From 47f6fa1ffdeb03ca2094d51418a2a71f97ab739d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:58 +0000
Subject: [PATCH 140/146] fix: WellsManager releases its wells when
 construction from a deck fails

---
 opm/core/wells/WellsManager.cpp | 16 ++++++++++++++++
 opm/core/wells/WellsManager.hpp |  5 +++++
 2 files changed, 21 insertions(+)

diff --git a/opm/core/wells/WellsManager.cpp b/opm/core/wells/WellsManager.cpp
index e744e0e..7224c65 100644
--- a/opm/core/wells/WellsManager.cpp
+++ b/opm/core/wells/WellsManager.cpp
@@ -238,6 +238,22 @@ namespace Opm
                                const UnstructuredGrid& grid,
                                const double* permeability)
         : w_(0)
+    {
+        try {
+            initFromDeck(deck, grid, permeability);
+        }
+        catch (...) {
+            // The destructor does not run for an incomplete object.
+            destroy_wells(w_);
+            throw;
+        }
+    }
+
+
+
+    void WellsManager::initFromDeck(const Opm::EclipseGridParser& deck,
+                                    const UnstructuredGrid& grid,
+                                    const double* permeability)
     {
         if (grid.dimensions != 3) {
             THROW("We cannot initialize wells from a deck unless the corresponding grid is 3-dimensional.");
diff --git a/opm/core/wells/WellsManager.hpp b/opm/core/wells/WellsManager.hpp
index 19289c5..46badae 100644
--- a/opm/core/wells/WellsManager.hpp
+++ b/opm/core/wells/WellsManager.hpp
@@ -113,6 +113,11 @@ namespace Opm
 	WellsManager(const WellsManager& other);
 	WellsManager& operator=(const WellsManager& other);
 
+	// Implementation of construction from deck.
+	void initFromDeck(const Opm::EclipseGridParser& deck,
+			  const UnstructuredGrid& grid,
+			  const double* permeability);
+
 	// Data
 	Wells* w_;
         WellCollection well_collection_;
-- 
2.43.0


From 627b12227605bf75c65e60ff121681d3d10d102e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:54 +0000
Subject: [PATCH 141/146] fix: WellState::init() read beyond the perforations
 for a well without any

---
 opm/core/simulator/WellState.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/opm/core/simulator/WellState.hpp b/opm/core/simulator/WellState.hpp
index f1edc5d..0d461ad 100644
--- a/opm/core/simulator/WellState.hpp
+++ b/opm/core/simulator/WellState.hpp
@@ -39,12 +39,18 @@ namespace Opm
                 bhp_.resize(nw);
                 // Initialize bhp to be target pressure
                 // if bhp-controlled well, otherwise set
-                // to pressure in first perforation cell.
+                // to pressure in first perforation cell
+                // (zero if the well has no perforations).
                 for (int w = 0; w < nw; ++w) {
                     const WellControls* ctrl = wells->ctrls[w];
 
                     if ((ctrl->current < 0) || // SHUT
                         (ctrl->type[ctrl->current] != BHP)) {
+                        if (wells->well_connpos[w] == wells->well_connpos[w + 1]) {
+                            // No perforations, hence no pressure to use.
+                            bhp_[w] = 0.0;
+                            continue;
+                        }
                         const int cell = wells->well_cells[wells->well_connpos[w]];
                         bhp_[w] = state.pressure()[cell];
                     }
-- 
2.43.0


From 282093142df039f5b9b09ea03d85e6d69ddce749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:03 +0000
Subject: [PATCH 142/146] fix: decks in PVT-M units were read as if they were
 in METRIC units

The keyword reader stopped at the dash, so that the keyword was never
recognised and the deck's unit system never refused.
---
 opm/core/io/eclipse/EclipseGridParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/io/eclipse/EclipseGridParser.cpp b/opm/core/io/eclipse/EclipseGridParser.cpp
index 2e188f5..dc7eb13 100644
--- a/opm/core/io/eclipse/EclipseGridParser.cpp
+++ b/opm/core/io/eclipse/EclipseGridParser.cpp
@@ -268,7 +268,7 @@ bool EclipseGridParser::readKeyword(std::istream& is, std::string& keyword)
   while ( (is.good()) &&
           (c != EOF     ) &&
           (!isblank(c)   ) &&
-          (isupper(c) || isdigit(c)) &&
+          (isupper(c) || isdigit(c) || (c == '-' && isupper(is.peek()))) && // As in PVT-M
           (c != '\n'    ) &&
           (c != '/'     ) &&
           (i < 8        )) {
@@ -291,7 +291,7 @@ bool EclipseGridParser::readKeyword(std::istream& is, std::string& keyword)
   
   /* Find first non-uppercase or non-digit character */
   for (i=0; i<8; ++i) {
-    if ( !(isupper(buf[i]) || isdigit(buf[i])) ) {
+    if ( !(isupper(buf[i]) || isdigit(buf[i]) || buf[i] == '-') ) {
       break;
     }
   }
-- 
2.43.0


From 959f85b902c3858b92d8bc6355ad526d1a50caf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:38 +0000
Subject: [PATCH 143/146] fix: CornerPointChopper read past the end of fields
 shorter than SPECGRID asks for

ZCORN was only checked after the constructor had used it, the cell
properties not at all.
---
 opm/core/io/eclipse/CornerpointChopper.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/opm/core/io/eclipse/CornerpointChopper.hpp b/opm/core/io/eclipse/CornerpointChopper.hpp
index abc6d04..eb7c2e2 100644
--- a/opm/core/io/eclipse/CornerpointChopper.hpp
+++ b/opm/core/io/eclipse/CornerpointChopper.hpp
@@ -44,6 +44,10 @@ namespace Opm
 
             int layersz = 8*dims_[0]*dims_[1];
             const std::vector<double>& ZCORN = parser_.getFloatingPointValue("ZCORN");
+            if (int(ZCORN.size()) != layersz*dims_[2]) {
+                std::cerr << "Error! ZCORN size (" << ZCORN.size() << ") not consistent with SPECGRID\n";
+                throw std::runtime_error("Inconsistent ZCORN and SPECGRID.");
+            }
             botmax_ = *std::max_element(ZCORN.begin(), ZCORN.begin() + layersz/2);
             topmin_ = *std::min_element(ZCORN.begin() + dims_[2]*layersz - layersz/2,
                                         ZCORN.begin() + dims_[2]*layersz);
@@ -411,6 +415,10 @@ namespace Opm
                                 std::vector<T>& output_field)
         {
             int sz = new_to_old_cell_.size();
+            if (int(field.size()) != dims_[0]*dims_[1]*dims_[2]) {
+                std::cerr << "Error! Cell property size (" << field.size() << ") not consistent with SPECGRID\n";
+                throw std::runtime_error("Inconsistent cell property and SPECGRID.");
+            }
             output_field.resize(sz);
             for (int i = 0; i < sz; ++i) {
                 output_field[i] = field[new_to_old_cell_[i]];
-- 
2.43.0


From e811a2c756f896b76f3b5c627e3798ea58527f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:29 +0000
Subject: [PATCH 144/146] fix: RockFromDeck read past the end of PORO and PERM
 fields with too few values

---
 opm/core/props/rock/RockFromDeck.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/opm/core/props/rock/RockFromDeck.cpp b/opm/core/props/rock/RockFromDeck.cpp
index a2349bc..75bc35b 100644
--- a/opm/core/props/rock/RockFromDeck.cpp
+++ b/opm/core/props/rock/RockFromDeck.cpp
@@ -74,6 +74,9 @@ namespace Opm
             const std::vector<double>& poro = parser.getFloatingPointValue("PORO");
             for (int c = 0; c < int(porosity_.size()); ++c) {
                 const int deck_pos = (gc == NULL) ? c : gc[c];
+                if (deck_pos >= int(poro.size())) {
+                    THROW("Too few PORO values for the grid: " << poro.size());
+                }
                 porosity_[c] = poro[deck_pos];
             }
         }
@@ -120,6 +123,11 @@ namespace Opm
                 // SharedPermTensor K(dim, dim, &permeability_[off]);
                 int       kix  = 0;
                 const int glob = (gc == NULL) ? c : gc[c];
+                for (std::size_t k = 0; k < tensor.size(); ++k) {
+                    if (glob >= int(tensor[k]->size())) {
+                        THROW("Too few permeability values for the grid: " << tensor[k]->size());
+                    }
+                }
 
                 for (int i = 0; i < dim; ++i) {
                     for (int j = 0; j < dim; ++j, ++kix) {
-- 
2.43.0


From cc8155476830cab0c09dea7a51f86b8dc159b4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:29 +0000
Subject: [PATCH 145/146] fix: SaturationPropsFromDeck read outside of fields
 with too few or nonpositive values

---
 .../props/satfunc/SaturationPropsFromDeck_impl.hpp  | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp b/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
index b0bbf62..8116ca5 100644
--- a/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
+++ b/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
@@ -58,12 +58,20 @@ namespace Opm
         int satfuncs_expected = 1;
         if (deck.hasField("SATNUM")) {
             const std::vector<int>& satnum = deck.getIntegerValue("SATNUM");
-            satfuncs_expected = *std::max_element(satnum.begin(), satnum.end());
+            if (!satnum.empty()) {
+                satfuncs_expected = *std::max_element(satnum.begin(), satnum.end());
+            }
             const int num_cells = grid.number_of_cells;
             cell_to_func_.resize(num_cells);
             const int* gc = grid.global_cell;
             for (int cell = 0; cell < num_cells; ++cell) {
                 const int deck_pos = (gc == NULL) ? cell : gc[cell];
+                if (deck_pos >= int(satnum.size())) {
+                    THROW("Too few SATNUM values for the grid: " << satnum.size());
+                }
+                if (satnum[deck_pos] < 1) {
+                    THROW("SATNUM values must be positive, found " << satnum[deck_pos]);
+                }
                 cell_to_func_[cell] = satnum[deck_pos] - 1;
             }
         }
@@ -348,6 +356,9 @@ namespace Opm
             const std::vector<double>& val = deck.getFloatingPointValue(keyword);
             for (int c = 0; c < int(scaleparam.size()); ++c) {
                 const int deck_pos = (gc == NULL) ? c : gc[c];
+                if (deck_pos >= int(val.size())) {
+                    THROW("Too few " << keyword << " values for the grid: " << val.size());
+                }
                 scaleparam[c] = val[deck_pos];
             }
         } else {
-- 
2.43.0


From a8b7628955f9e725fec6bdb79286241f1005cc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:29 +0000
Subject: [PATCH 146/146] fix: initStateFromDeck() read past the end of
 PRESSURE, SWAT and SGAS with too few values

---
 opm/core/simulator/initState_impl.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/opm/core/simulator/initState_impl.hpp b/opm/core/simulator/initState_impl.hpp
index 729e1c6..ddf639b 100644
--- a/opm/core/simulator/initState_impl.hpp
+++ b/opm/core/simulator/initState_impl.hpp
@@ -512,6 +512,16 @@ namespace Opm
             std::vector<double>& p = state.pressure();
             const std::vector<double>& p_deck = deck.getFloatingPointValue("PRESSURE");
             const int num_cells = grid.number_of_cells;
+            const char* fields[3] = { "PRESSURE", "SWAT", "SGAS" };
+            for (int f = 0; f < 3; ++f) {
+                if (!deck.hasField(fields[f])) continue;
+                const int num_values = deck.getFloatingPointValue(fields[f]).size();
+                for (int c = 0; c < num_cells; ++c) {
+                    if (((grid.global_cell == NULL) ? c : grid.global_cell[c]) >= num_values) {
+                        THROW("initStateFromDeck(): too few " << fields[f] << " values for the grid: " << num_values);
+                    }
+                }
+            }
             if (num_phases == 2) {
                 if (!pu.phase_used[BlackoilPhases::Aqua]) {
                     // oil-gas: we require SGAS
-- 
2.43.0

