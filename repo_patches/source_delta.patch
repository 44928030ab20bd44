From 341467e4192fe4cfd0d8e679ace478d1af9a87ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:51 +0000
Subject: [PATCH 01/30] fix: write zeros, not uninitialised memory, to beta_b
 when flux data are present

---
 src/_booz_xform/write_boozmn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/_booz_xform/write_boozmn.cpp b/src/_booz_xform/write_boozmn.cpp
index 5e9814c..543e53b 100644
--- a/src/_booz_xform/write_boozmn.cpp
+++ b/src/_booz_xform/write_boozmn.cpp
@@ -82,7 +82,7 @@ void Booz_xform::write_boozmn(std::string filename) {
   // backwards-compatibility of the boozmn.nc files.
   Vector pres_b(ns_in + 1), beta_b(ns_in + 1);
   beta_b.setZero();
-  nc.put(radius_dim, "beta_b", pres_b, placeholder_str, "dimensionless");
+  nc.put(radius_dim, "beta_b", beta_b, placeholder_str, "dimensionless");
   Vector phip_dummy(ns_in + 1), chi_dummy(ns_in + 1), phi_dummy(ns_in+1);
   phip_dummy.setZero();
   chi_dummy.setZero();
-- 
2.43.0


From 2d3efc11f0cd9c480e8d3bf630c5e8e84a0ff32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:51 +0000
Subject: [PATCH 02/30] fix: discard stale asymmetric outputs when run() is
 stellarator-symmetric

---
 src/_booz_xform/init.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/_booz_xform/init.cpp b/src/_booz_xform/init.cpp
index 97fba17..f72bc17 100644
--- a/src/_booz_xform/init.cpp
+++ b/src/_booz_xform/init.cpp
@@ -169,6 +169,13 @@ void Booz_xform::init() {
     zmnc_b.setZero(mnboz, ns_b);
     numnc_b.setZero(mnboz, ns_b);
     gmns_b.setZero(mnboz, ns_b);
+  } else {
+    // Discard any asymmetric results of an earlier calculation:
+    bmns_b.resize(0, 0);
+    rmns_b.resize(0, 0);
+    zmnc_b.resize(0, 0);
+    numnc_b.resize(0, 0);
+    gmns_b.resize(0, 0);
   }
 
 }
-- 
2.43.0


From ef9de8995ec2f90844f88f311b9b7ef908b1379a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:51 +0000
Subject: [PATCH 03/30] fix: init_trig wrote out of bounds when only m=0 modes
 are present

---
 src/_booz_xform/init_trig.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/_booz_xform/init_trig.cpp b/src/_booz_xform/init_trig.cpp
index 628c6e9..a2257b5 100644
--- a/src/_booz_xform/init_trig.cpp
+++ b/src/_booz_xform/init_trig.cpp
@@ -23,8 +23,12 @@ void booz_xform::init_trig(Vector& theta_grid_x, Vector& zeta_grid_x,
   for (j = 0; j < n_theta_zeta_x; j++) {
     cosmx(j, 0) = 1.0;
     cosnx(j, 0) = 1.0;
-    cosmx(j, 1) = cos(theta_grid_x[j]);
-    sinmx(j, 1) = sin(theta_grid_x[j]);
+  }
+  if (mmax >= 1) {
+    for (j = 0; j < n_theta_zeta_x; j++) {
+      cosmx(j, 1) = cos(theta_grid_x[j]);
+      sinmx(j, 1) = sin(theta_grid_x[j]);
+    }
   }
   if (nmax >= 1) {
     for (j = 0; j < n_theta_zeta_x; j++) {
-- 
2.43.0


From 5c12e6747e841739e983109362e3b6b7b87ebc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:51 +0000
Subject: [PATCH 04/30] fix: allow input modes with m = mpol, as documented,
 without reading out of bounds

---
 src/_booz_xform/init.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/_booz_xform/init.cpp b/src/_booz_xform/init.cpp
index f72bc17..653c2b6 100644
--- a/src/_booz_xform/init.cpp
+++ b/src/_booz_xform/init.cpp
@@ -119,8 +119,8 @@ void Booz_xform::init() {
     }
   }
 
-  cosm.setZero(n_theta_zeta, mpol);
-  sinm.setZero(n_theta_zeta, mpol);
+  cosm.setZero(n_theta_zeta, mpol + 1);
+  sinm.setZero(n_theta_zeta, mpol + 1);
   cosn.setZero(n_theta_zeta, ntor + 1);
   sinn.setZero(n_theta_zeta, ntor + 1);
   cosm_nyq.setZero(n_theta_zeta, mpol_nyq + 1);
@@ -130,7 +130,7 @@ void Booz_xform::init() {
   
   init_trig(theta_grid, zeta_grid,
 	    cosm, sinm, cosn, sinn,
-	    mpol - 1, ntor, nfp);
+	    mpol, ntor, nfp);
   
   init_trig(theta_grid, zeta_grid,
 	    cosm_nyq, sinm_nyq, cosn_nyq, sinn_nyq,
-- 
2.43.0


From 3a5c39855146394e27d07368ac88b89048d3ebfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:16 +0000
Subject: [PATCH 05/30] fix: out-of-bounds read of the m=1 modes in
 init_from_vmec when ns=2

---
 src/_booz_xform/init_from_vmec.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index 6b180df..5fd664d 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -267,17 +267,21 @@ void Booz_xform::init_from_vmec(int ns,
 	// Interpolate:
 	//rmnc(j, 1) = 0.5 * (val_over_sqrt_s_on_axis + rmnc0(j, 1) / sqrt_s_full[1]) * sqrt_s_half[0];
 
+	// If there is only 1 half-grid surface, there is only 1 full-grid
+	// point with s > 0, so treat rmnc/sqrt(s) as a constant.
+	int j2 = std::min(2, ns - 1);
+
 	rmnc(j, 0) = (1.5 * rmnc0(j, 1) / sqrt_s_full[1]
-		      - 0.5 * rmnc0(j, 2) / sqrt_s_full[2]) * sqrt_s_half[0];
+		      - 0.5 * rmnc0(j, j2) / sqrt_s_full[j2]) * sqrt_s_half[0];
 
 	zmns(j, 0) = (1.5 * zmns0(j, 1) / sqrt_s_full[1]
-		      - 0.5 * zmns0(j, 2) / sqrt_s_full[2]) * sqrt_s_half[0];
+		      - 0.5 * zmns0(j, j2) / sqrt_s_full[j2]) * sqrt_s_half[0];
 	if (asym) {
 	  rmns(j, 0) = (1.5 * rmns0(j, 1) / sqrt_s_full[1]
-			- 0.5 * rmns0(j, 2) / sqrt_s_full[2]) * sqrt_s_half[0];
+			- 0.5 * rmns0(j, j2) / sqrt_s_full[j2]) * sqrt_s_half[0];
 
 	  zmnc(j, 0) = (1.5 * zmnc0(j, 1) / sqrt_s_full[1]
-			- 0.5 * zmnc0(j, 2) / sqrt_s_full[2]) * sqrt_s_half[0];
+			- 0.5 * zmnc0(j, j2) / sqrt_s_full[j2]) * sqrt_s_half[0];
 	}
       }
     }
-- 
2.43.0


From 3dbf1d108d12a7bd53fc1c840868d1b645fff3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:16 +0000
Subject: [PATCH 06/30] fix: verbose>1 printed elements beyond the end of small
 arrays in init_from_vmec

---
 src/_booz_xform/init_from_vmec.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index 5fd664d..eb71a58 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -185,11 +185,11 @@ void Booz_xform::init_from_vmec(int ns,
       std::cout << "xn = " << xn << std::endl;
 
       std::cout << "rmnc, increasing ns index:";
-      for (j = 0; j < 4; j++) std::cout << " " << rmnc0(0, j);
+      for (j = 0; j < std::min(4, ns); j++) std::cout << " " << rmnc0(0, j);
       std::cout << std::endl;
 
       std::cout << "rmnc, ncreasing mnmax index:";
-      for (j = 0; j < 4; j++) std::cout << " " << rmnc0(j, 0);
+      for (j = 0; j < std::min(4, mnmax); j++) std::cout << " " << rmnc0(j, 0);
       std::cout << std::endl;
     }
   }
-- 
2.43.0


From fb3b64c78f3055d0e088c7d5f6f10dfc25c4d6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:16 +0000
Subject: [PATCH 07/30] fix: check compute_surfs when it is used, not before it
 is overwritten

---
 src/_booz_xform/init.cpp           | 6 ++++++
 src/_booz_xform/init_from_vmec.cpp | 5 -----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/_booz_xform/init.cpp b/src/_booz_xform/init.cpp
index 653c2b6..99559be 100644
--- a/src/_booz_xform/init.cpp
+++ b/src/_booz_xform/init.cpp
@@ -1,6 +1,7 @@
 #include <iostream>
 #include <iomanip>
 #include <cassert>
+#include <stdexcept>
 #ifdef OPENMP
 #include <omp.h>
 #endif
@@ -29,6 +30,11 @@ int booz_xform::omp_max_threads() {
  *  setup_booz.f, boozer_coords.f, and foranl.f.
  */
 void Booz_xform::init() {
+  for (int js_b = 0; js_b < compute_surfs.size(); js_b++) {
+    if (compute_surfs[js_b] < 0) throw std::runtime_error("compute_surfs cannot be negative");
+    if (compute_surfs[js_b] >= ns_in) throw std::runtime_error("compute_surfs has an entry that is too large for the given ns_in");
+  }
+
   // First comes some initialization from read_wout_booz.f:
   
   // Set resolution for the real-space grids:
diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index eb71a58..95d7978 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -87,11 +87,6 @@ void Booz_xform::init_from_vmec(int ns,
     if (bsubvmns0.rows() != mnmax_nyq) throw std::runtime_error("bsubvmns0 has the wrong number of rows");
   }
 
-  for (j = 0; j < compute_surfs.size(); j++) {
-    if (compute_surfs[j] < 0) throw std::runtime_error("compute_surfs cannot be negative");
-    if (compute_surfs[j] >= ns - 1) throw std::runtime_error("compute_surfs has an entry that is too large for the given ns");
-  }
-
   // Done with validation.
 
   iota.resize(ns_in);
-- 
2.43.0


From 7c2412f7b85fabb451d0ff156e24098ac1c4a491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:16 +0000
Subject: [PATCH 08/30] fix: restore Boozer_G, Boozer_I and aspect in
 read_boozmn

---
 src/_booz_xform/read_boozmn.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/_booz_xform/read_boozmn.cpp b/src/_booz_xform/read_boozmn.cpp
index 5fd0152..3f542a9 100644
--- a/src/_booz_xform/read_boozmn.cpp
+++ b/src/_booz_xform/read_boozmn.cpp
@@ -23,6 +23,7 @@ void Booz_xform::read_boozmn(std::string filename) {
   nc.get("mboz_b", mboz);
   nc.get("nboz_b", nboz);
   nc.get("mnboz_b", mnboz);
+  nc.get("aspect_b", aspect);
 
   xm_b.resize(mnboz);
   xn_b.resize(mnboz);
@@ -69,6 +70,14 @@ void Booz_xform::read_boozmn(std::string filename) {
   // Fortran jlist is 1-based and includes an extra 1 from the 0 at
   // the first entry of half-grid quantities. compute_surfs is 0-based.
   for (j = 0; j < ns_b; j++) compute_surfs[j] -= 2;
+  Boozer_G.resize(ns_b);
+  Boozer_I.resize(ns_b);
+  for (j = 0; j < ns_b; j++) {
+      if (compute_surfs[j] < 0 || compute_surfs[j] >= ns_in)
+          throw std::runtime_error("jlist has an entry that is not consistent with the radial grid");
+      Boozer_G[j] = Boozer_G_all[compute_surfs[j]];
+      Boozer_I[j] = Boozer_I_all[compute_surfs[j]];
+  }
   if (verbose > 0) std::cout << "Read compute_surfs=" << compute_surfs << std::endl;
 
   bmnc_b.resize(mnboz, ns_b);
-- 
2.43.0


From 169d8f6f2d5cf5aabc2231692bb63ef288033ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:52 +0000
Subject: [PATCH 09/30] fix: set chi to 0 instead of leaving it uninitialised
 for boozmn files without chi_b

---
 src/_booz_xform/netcdf_reader.cpp | 5 +++++
 src/_booz_xform/netcdf_reader.hpp | 5 ++++-
 src/_booz_xform/read_boozmn.cpp   | 6 ++++--
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/_booz_xform/netcdf_reader.cpp b/src/_booz_xform/netcdf_reader.cpp
index 01c6255..4655858 100644
--- a/src/_booz_xform/netcdf_reader.cpp
+++ b/src/_booz_xform/netcdf_reader.cpp
@@ -31,6 +31,11 @@ size_t booz_xform::NetCDFReader::getdim(std::string dimname) {
   return dimval;
 }
 
+bool booz_xform::NetCDFReader::has(std::string varname) {
+  int var_id;
+  return nc_inq_varid(ncid, varname.c_str(), &var_id) == NC_NOERR;
+}
+
 void booz_xform::NetCDFReader::get(std::string varname, int& var) {
   int var_id, retval;
   if ((retval = nc_inq_varid(ncid, varname.c_str(), &var_id)))
diff --git a/src/_booz_xform/netcdf_reader.hpp b/src/_booz_xform/netcdf_reader.hpp
index fc93111..3625032 100644
--- a/src/_booz_xform/netcdf_reader.hpp
+++ b/src/_booz_xform/netcdf_reader.hpp
@@ -16,7 +16,10 @@ namespace booz_xform {
     NetCDFReader(std::string);
 
     size_t getdim(std::string);
-    
+
+    // Whether a variable exists in the file:
+    bool has(std::string);
+
     // Scalars:
     void get(std::string, int&);
     void get(std::string, boozfloat&);
diff --git a/src/_booz_xform/read_boozmn.cpp b/src/_booz_xform/read_boozmn.cpp
index 3f542a9..86ef6e5 100644
--- a/src/_booz_xform/read_boozmn.cpp
+++ b/src/_booz_xform/read_boozmn.cpp
@@ -48,9 +48,11 @@ void Booz_xform::read_boozmn(std::string filename) {
   nc.get("buco_b", Boozer_I_in);
   nc.get("phi_b", phi);
   nc.get("phip_b", phip);
-  try {
+  // Files from the fortran version do not include chi_b.
+  if (nc.has("chi_b")) {
       nc.get("chi_b", chi);
-  } catch (std::runtime_error error) {
+  } else {
+      chi.setZero();
   }
   nc.get("pres_b", pres);
   for (j = 0; j < ns_in; j++) {
-- 
2.43.0


From b7d096c476e98cea64eeab8e7bfbd9f1d0240009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:30 +0000
Subject: [PATCH 10/30] fix: close netCDF files when reading or writing fails

---
 src/_booz_xform/netcdf_reader.cpp | 12 +++++++++++-
 src/_booz_xform/netcdf_reader.hpp |  4 ++++
 src/_booz_xform/netcdf_writer.cpp |  8 ++++++++
 src/_booz_xform/netcdf_writer.hpp |  4 ++++
 4 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/_booz_xform/netcdf_reader.cpp b/src/_booz_xform/netcdf_reader.cpp
index 4655858..cd816d1 100644
--- a/src/_booz_xform/netcdf_reader.cpp
+++ b/src/_booz_xform/netcdf_reader.cpp
@@ -8,11 +8,20 @@ using namespace booz_xform;
 
 booz_xform::NetCDFReader::NetCDFReader(std::string filename) {
   int retval;
+  is_open = false;
   if ((retval = nc_open(filename.c_str(), NC_NOWRITE, &ncid)))
     ERR(retval, filename);
   // Get the number of dimensions, variables, etc:
-  if ((retval = nc_inq(ncid, &ndims, &nvars, &ngatts, &unlimdimid)))
+  if ((retval = nc_inq(ncid, &ndims, &nvars, &ngatts, &unlimdimid))) {
+    nc_close(ncid);
     ERR(retval, filename);
+  }
+  is_open = true;
+}
+
+/** Close the file if an exception prevented close() from being reached. */
+booz_xform::NetCDFReader::~NetCDFReader() {
+  if (is_open) nc_close(ncid);
 }
 
 void booz_xform::NetCDFReader::ERR(int e, std::string details) {
@@ -87,5 +96,6 @@ void booz_xform::NetCDFReader::get(std::string varname, Matrix& var) {
 
 void booz_xform::NetCDFReader::close() {
   int retval;
+  is_open = false;
   if ((retval = nc_close(ncid))) ERR(retval, "close()");
 }
diff --git a/src/_booz_xform/netcdf_reader.hpp b/src/_booz_xform/netcdf_reader.hpp
index 3625032..6f71fd9 100644
--- a/src/_booz_xform/netcdf_reader.hpp
+++ b/src/_booz_xform/netcdf_reader.hpp
@@ -10,10 +10,14 @@ namespace booz_xform {
   class NetCDFReader {
   private:
     int ncid, ndims, nvars, ngatts, unlimdimid;
+    bool is_open;
+    NetCDFReader(const NetCDFReader&); // Not copyable, since the destructor closes the file
+    NetCDFReader& operator=(const NetCDFReader&);
     static void ERR(int, std::string);
     
   public:
     NetCDFReader(std::string);
+    ~NetCDFReader();
 
     size_t getdim(std::string);
 
diff --git a/src/_booz_xform/netcdf_writer.cpp b/src/_booz_xform/netcdf_writer.cpp
index dca832a..ace531a 100644
--- a/src/_booz_xform/netcdf_writer.cpp
+++ b/src/_booz_xform/netcdf_writer.cpp
@@ -15,10 +15,17 @@ using namespace booz_xform;
 
 booz_xform::NetCDFWriter::NetCDFWriter(std::string filename) {
   int retval;
+  is_open = false;
   // If you want to use the netcdf4 format, "|NC_NETCDF4" must be included
   // in the file type, but such files cannot be read with
   // scipy.io.netcdf.
   if ((retval = nc_create(filename.c_str(), NC_CLOBBER, &ncid))) ERR(retval);
+  is_open = true;
+}
+
+/** Close the file if an exception prevented write_and_close() from completing. */
+booz_xform::NetCDFWriter::~NetCDFWriter() {
+  if (is_open) nc_abort(ncid);
 }
 
 void booz_xform::NetCDFWriter::ERR(int e) {
@@ -164,5 +171,6 @@ void booz_xform::NetCDFWriter::write_and_close() {
   
   // Close the file
   if ((retval = nc_close(ncid))) ERR(retval);
+  is_open = false;
 }
 
diff --git a/src/_booz_xform/netcdf_writer.hpp b/src/_booz_xform/netcdf_writer.hpp
index 28730e0..d0ab103 100644
--- a/src/_booz_xform/netcdf_writer.hpp
+++ b/src/_booz_xform/netcdf_writer.hpp
@@ -26,6 +26,9 @@ namespace booz_xform {
   class NetCDFWriter {
   private:
     int ncid;
+    bool is_open;
+    NetCDFWriter(const NetCDFWriter&); // Not copyable, since the destructor closes the file
+    NetCDFWriter& operator=(const NetCDFWriter&);
     std::vector<int> var_ids;
     std::vector<void*> pointers;
     enum {BOOZ_NC_INT, BOOZ_NC_FLOAT, BOOZ_NC_STRING};
@@ -34,6 +37,7 @@ namespace booz_xform {
     
   public:
     NetCDFWriter(std::string);
+    ~NetCDFWriter();
     dim_id_type dim(std::string, int);
     void add_attribute(int, std::string, std::string);
     
-- 
2.43.0


From 7d34832e9e050c071cd7b24e624d6e82d27e9073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:30 +0000
Subject: [PATCH 11/30] fix: initialise all scalar members of a new Booz_xform
 object

---
 src/_booz_xform/booz_xform.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/_booz_xform/booz_xform.cpp b/src/_booz_xform/booz_xform.cpp
index 0f7e571..f4387fe 100644
--- a/src/_booz_xform/booz_xform.cpp
+++ b/src/_booz_xform/booz_xform.cpp
@@ -9,6 +9,18 @@ void Booz_xform::defaults() {
   mboz = 16;
   nboz = 16;
   aspect = 0;
+  toroidal_flux = 0;
+  asym = false;
+  nfp = 1;
+  mpol = 0;
+  ntor = 0;
+  mnmax = 0;
+  mpol_nyq = 0;
+  ntor_nyq = 0;
+  mnmax_nyq = 0;
+  ns_in = 0;
+  ns_b = 0;
+  mnboz = 0;
 }
 
 Booz_xform::Booz_xform() {
-- 
2.43.0


From f586515b587302548575a689abbe2019a1eff379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:30 +0000
Subject: [PATCH 12/30] fix: reject netCDF files whose variables do not match
 the declared sizes

---
 src/_booz_xform/netcdf_reader.cpp | 40 ++++++++++++++++++++++++-------
 src/_booz_xform/netcdf_reader.hpp |  4 ++++
 src/_booz_xform/read_boozmn.cpp   |  4 ++++
 src/_booz_xform/read_wout.cpp     |  4 ++++
 4 files changed, 43 insertions(+), 9 deletions(-)

diff --git a/src/_booz_xform/netcdf_reader.cpp b/src/_booz_xform/netcdf_reader.cpp
index cd816d1..1dc6011 100644
--- a/src/_booz_xform/netcdf_reader.cpp
+++ b/src/_booz_xform/netcdf_reader.cpp
@@ -30,6 +30,23 @@ void booz_xform::NetCDFReader::ERR(int e, std::string details) {
   throw std::runtime_error(nc_strerror(e));
 }
 
+void booz_xform::NetCDFReader::check_shape(int var_id, std::string varname, std::vector<size_t> shape) {
+  int retval, var_ndims;
+  if ((retval = nc_inq_varndims(ncid, var_id, &var_ndims)))
+    ERR(retval, varname);
+  bool ok = (var_ndims == (int) shape.size());
+  std::vector<int> dim_ids(var_ndims + 1);
+  if ((retval = nc_inq_vardimid(ncid, var_id, &dim_ids[0])))
+    ERR(retval, varname);
+  for (int j = 0; ok && j < var_ndims; j++) {
+    size_t dimval;
+    if ((retval = nc_inq_dimlen(ncid, dim_ids[j], &dimval)))
+      ERR(retval, varname);
+    ok = (dimval == shape[j]);
+  }
+  if (!ok) throw std::runtime_error("The netCDF variable " + varname + " does not have the expected dimensions");
+}
+
 size_t booz_xform::NetCDFReader::getdim(std::string dimname) {
   int dim_id, retval;
   size_t dimval;
@@ -49,6 +66,7 @@ void booz_xform::NetCDFReader::get(std::string varname, int& var) {
   int var_id, retval;
   if ((retval = nc_inq_varid(ncid, varname.c_str(), &var_id)))
     ERR(retval, varname);
+  check_shape(var_id, varname, {});
   if ((retval = nc_get_var_int(ncid, var_id, &var)))
     ERR(retval, varname);
 }
@@ -57,40 +75,44 @@ void booz_xform::NetCDFReader::get(std::string varname, boozfloat& var) {
   int var_id, retval;
   if ((retval = nc_inq_varid(ncid, varname.c_str(), &var_id)))
     ERR(retval, varname);
+  check_shape(var_id, varname, {});
   if ((retval = nc_get_var_double(ncid, var_id, &var)))
     ERR(retval, varname);
 }
 
-/** This subroutine presently assumes the Vector has already been
-    sized to the correct dimension. If not, there may be a seg fault.
+/** The Vector must already have been sized to the correct dimension.
+    If not, an exception is thrown.
  */
 void booz_xform::NetCDFReader::get(std::string varname, Vector& var) {
   int var_id, retval;
   if ((retval = nc_inq_varid(ncid, varname.c_str(), &var_id)))
     ERR(retval, varname);
-  if ((retval = nc_get_var_double(ncid, var_id, &var[0])))
+  check_shape(var_id, varname, {(size_t) var.size()});
+  if ((retval = nc_get_var_double(ncid, var_id, var.data())))
     ERR(retval, varname);
 }
 
-/** This subroutine presently assumes the IntVector has already been
-    sized to the correct dimension. If not, there may be a seg fault.
+/** The IntVector must already have been sized to the correct dimension.
+    If not, an exception is thrown.
  */
 void booz_xform::NetCDFReader::get(std::string varname, IntVector& var) {
   int var_id, retval;
   if ((retval = nc_inq_varid(ncid, varname.c_str(), &var_id)))
     ERR(retval, varname);
-  if ((retval = nc_get_var_int(ncid, var_id, &var[0])))
+  check_shape(var_id, varname, {(size_t) var.size()});
+  if ((retval = nc_get_var_int(ncid, var_id, var.data())))
     ERR(retval, varname);
 }
 
-/** This subroutine presently assumes the matrix has already been
-    sized to the correct dimension. If not, there may be a seg fault.
+/** The matrix must already have been sized to the correct dimension.
+    If not, an exception is thrown.
  */
 void booz_xform::NetCDFReader::get(std::string varname, Matrix& var) {
   int var_id, retval;
   if ((retval = nc_inq_varid(ncid, varname.c_str(), &var_id)))
     ERR(retval, varname);
-  if ((retval = nc_get_var_double(ncid, var_id, &var(0,0))))
+  check_shape(var_id, varname, {(size_t) var.cols(), (size_t) var.rows()});
+  if ((retval = nc_get_var_double(ncid, var_id, var.data())))
     ERR(retval, varname);
 }
 
diff --git a/src/_booz_xform/netcdf_reader.hpp b/src/_booz_xform/netcdf_reader.hpp
index 6f71fd9..1fbfcbf 100644
--- a/src/_booz_xform/netcdf_reader.hpp
+++ b/src/_booz_xform/netcdf_reader.hpp
@@ -1,6 +1,8 @@
 #ifndef BOOZ_NETCDF_READER_H
 #define BOOZ_NETCDF_READER_H
 
+#include <string>
+#include <vector>
 #include "vector_matrix.hpp"
 
 namespace booz_xform {
@@ -14,6 +16,8 @@ namespace booz_xform {
     NetCDFReader(const NetCDFReader&); // Not copyable, since the destructor closes the file
     NetCDFReader& operator=(const NetCDFReader&);
     static void ERR(int, std::string);
+    // Throw an exception unless a variable has the given dimensions, in netCDF order:
+    void check_shape(int, std::string, std::vector<size_t>);
     
   public:
     NetCDFReader(std::string);
diff --git a/src/_booz_xform/read_boozmn.cpp b/src/_booz_xform/read_boozmn.cpp
index 86ef6e5..56960c7 100644
--- a/src/_booz_xform/read_boozmn.cpp
+++ b/src/_booz_xform/read_boozmn.cpp
@@ -25,12 +25,15 @@ void Booz_xform::read_boozmn(std::string filename) {
   nc.get("mnboz_b", mnboz);
   nc.get("aspect_b", aspect);
 
+  if (mnboz < 1) throw std::runtime_error("mnboz_b must be at least 1");
+
   xm_b.resize(mnboz);
   xn_b.resize(mnboz);
   nc.get("ixm_b", xm_b);
   nc.get("ixn_b", xn_b);
 
   int radius = nc.getdim("radius");
+  if (radius < 2) throw std::runtime_error("radius must be at least 2");
   Vector iota_in, Boozer_G_in, Boozer_I_in;
   iota_in.resize(radius);
   Boozer_G_in.resize(radius);
@@ -120,6 +123,7 @@ void Booz_xform::read_boozmn(std::string filename) {
   // Set up the s grid for output quantites.
   int ns_vmec;
   nc.get("ns_b", ns_vmec);
+  if (ns_vmec != radius) throw std::runtime_error("ns_b is not consistent with the radius dimension");
   boozfloat hs = 1.0 / (ns_vmec - 1.0);
   s_b.resize(ns_b);
   for (j = 0; j < ns_b; j++) s_b[j] = hs * (compute_surfs[j] + 0.5);
diff --git a/src/_booz_xform/read_wout.cpp b/src/_booz_xform/read_wout.cpp
index bf05824..72f28cb 100644
--- a/src/_booz_xform/read_wout.cpp
+++ b/src/_booz_xform/read_wout.cpp
@@ -26,6 +26,10 @@ void Booz_xform::read_wout(std::string filename, bool flux) {
   nc.get("mnmax", mnmax);
   nc.get("mnmax_nyq", mnmax_nyq);
   nc.get("aspect", aspect);
+  if (ns < 2) throw std::runtime_error("ns must be at least 2");
+  if (nfp < 1) throw std::runtime_error("nfp must be at least 1");
+  if (mnmax < 1) throw std::runtime_error("mnmax must be at least 1");
+  if (mnmax_nyq < 1) throw std::runtime_error("mnmax_nyq must be at least 1");
 
   Vector phip0;
   Vector chi0;
-- 
2.43.0


From c3cf2e64382d9291c9c930cc8a9cf565cd2cd72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:13 +0000
Subject: [PATCH 13/30] fix: init_from_vmec read beyond the end of empty mode
 tables, and changed ns_in when it failed

---
 src/_booz_xform/init_from_vmec.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index 95d7978..816d262 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -27,7 +27,6 @@ void Booz_xform::init_from_vmec(int ns,
         Vector& pres0,
         Vector& phi0) {
   int j, k;
-  ns_in = ns - 1;
 
   // Do some validation.
 
@@ -41,6 +40,8 @@ void Booz_xform::init_from_vmec(int ns,
       if (pres0.size() != ns) throw std::runtime_error("pres0.size() is not ns");
       if (phi0.size() != ns) throw std::runtime_error("phi0.size() is not ns");
   }
+  if (mnmax < 1) throw std::runtime_error("mnmax must be at least 1");
+  if (mnmax_nyq < 1) throw std::runtime_error("mnmax_nyq must be at least 1");
   if (xm.size() != mnmax) throw std::runtime_error("Size of xm is not mnmax");
   if (xn.size() != mnmax) throw std::runtime_error("Size of xn is not mnmax");
   if (xm_nyq.size() != mnmax_nyq) throw std::runtime_error("Size of xm_nyq is not mnmax_nyq");
@@ -89,6 +90,7 @@ void Booz_xform::init_from_vmec(int ns,
 
   // Done with validation.
 
+  ns_in = ns - 1;
   iota.resize(ns_in);
   for (j = 0; j < ns_in; j++)  {
       iota[j] = iotas[j + 1];
-- 
2.43.0


From d0c8ee5d7180e13d272297ccb7e31272a7ba23eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 14/30] fix: run() raises an exception, rather than reading out
 of bounds, for inconsistent inputs

---
 src/_booz_xform/booz_xform.hpp |  1 +
 src/_booz_xform/init.cpp       | 53 +++++++++++++++++++++++++++++++---
 2 files changed, 50 insertions(+), 4 deletions(-)

diff --git a/src/_booz_xform/booz_xform.hpp b/src/_booz_xform/booz_xform.hpp
index 0b1a487..507b7cc 100644
--- a/src/_booz_xform/booz_xform.hpp
+++ b/src/_booz_xform/booz_xform.hpp
@@ -53,6 +53,7 @@ namespace booz_xform {
     Matrix sinn_nyq; //!< Stores sin(n*zeta) for xn_nyq
 
     void defaults();
+    void check_inputs();
     void check_accuracy(int, int, Vector&, Vector&, Vector&, Matrix&, Matrix&, Matrix&, Matrix&);
 
   public:
diff --git a/src/_booz_xform/init.cpp b/src/_booz_xform/init.cpp
index 99559be..d3d39e0 100644
--- a/src/_booz_xform/init.cpp
+++ b/src/_booz_xform/init.cpp
@@ -1,6 +1,7 @@
 #include <iostream>
 #include <iomanip>
 #include <cassert>
+#include <cstdlib>
 #include <stdexcept>
 #ifdef OPENMP
 #include <omp.h>
@@ -23,6 +24,53 @@ int booz_xform::omp_max_threads() {
 #endif
 }
 
+/** Throw an exception unless the input arrays have the documented
+ *  sizes and the mode numbers lie in the documented ranges, since
+ *  otherwise run() would access memory out of bounds.
+ */
+void Booz_xform::check_inputs() {
+  auto check = [](bool ok, const char* msg) {
+    if (!ok) throw std::runtime_error(msg);
+  };
+
+  check(nfp >= 1, "nfp must be at least 1");
+  check(mboz >= 1 && nboz >= 0, "mboz must be at least 1 and nboz must be at least 0");
+  check(ns_in >= 1, "No input data, or ns_in is not at least 1");
+  check(s_in.size() == ns_in, "s_in does not have size ns_in");
+  check(iota.size() == ns_in, "iota does not have size ns_in");
+  check(mnmax >= 1, "mnmax must be at least 1");
+  check(mnmax_nyq >= 1, "mnmax_nyq must be at least 1");
+  check(xm.size() == mnmax && xn.size() == mnmax, "xm or xn does not have size mnmax");
+  check(xm_nyq.size() == mnmax_nyq && xn_nyq.size() == mnmax_nyq, "xm_nyq or xn_nyq does not have size mnmax_nyq");
+  check(mpol >= 0 && ntor >= 0 && mpol_nyq >= 0 && ntor_nyq >= 0, "mpol, ntor, mpol_nyq and ntor_nyq cannot be negative");
+
+  int j;
+  for (j = 0; j < mnmax; j++) {
+    check(xm[j] >= 0 && xm[j] <= mpol, "xm has an entry that is negative or exceeds mpol");
+    check(std::abs((long long) xn[j]) / nfp <= ntor, "xn has an entry that exceeds nfp * ntor");
+  }
+  for (j = 0; j < mnmax_nyq; j++) {
+    check(xm_nyq[j] >= 0 && xm_nyq[j] <= mpol_nyq, "xm_nyq has an entry that is negative or exceeds mpol_nyq");
+    check(std::abs((long long) xn_nyq[j]) / nfp <= ntor_nyq, "xn_nyq has an entry that exceeds nfp * ntor_nyq");
+  }
+
+  auto check_shape = [this, check](const Matrix& x, int rows) {
+    check(x.rows() == rows && x.cols() == ns_in,
+	  "An input array does not have the size given by mnmax or mnmax_nyq and ns_in");
+  };
+  for (const Matrix* x : {&rmnc, &zmns, &lmns}) check_shape(*x, mnmax);
+  for (const Matrix* x : {&bmnc, &bsubumnc, &bsubvmnc}) check_shape(*x, mnmax_nyq);
+  if (asym) {
+    for (const Matrix* x : {&rmns, &zmnc, &lmnc}) check_shape(*x, mnmax);
+    for (const Matrix* x : {&bmns, &bsubumns, &bsubvmns}) check_shape(*x, mnmax_nyq);
+  }
+
+  for (j = 0; j < compute_surfs.size(); j++) {
+    check(compute_surfs[j] >= 0, "compute_surfs cannot be negative");
+    check(compute_surfs[j] < ns_in, "compute_surfs has an entry that is too large for the given ns_in");
+  }
+}
+
 /** Initialize variables that are common to all surfaces that share
  *  the same (mpol, ntor) resolution.
  *
@@ -30,10 +78,7 @@ int booz_xform::omp_max_threads() {
  *  setup_booz.f, boozer_coords.f, and foranl.f.
  */
 void Booz_xform::init() {
-  for (int js_b = 0; js_b < compute_surfs.size(); js_b++) {
-    if (compute_surfs[js_b] < 0) throw std::runtime_error("compute_surfs cannot be negative");
-    if (compute_surfs[js_b] >= ns_in) throw std::runtime_error("compute_surfs has an entry that is too large for the given ns_in");
-  }
+  check_inputs();
 
   // First comes some initialization from read_wout_booz.f:
   
-- 
2.43.0


From 453b676358bb20913f9e63c4b60ef01bdcfd6100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 15/30] fix: write_boozmn read out of bounds when there are no
 results matching the inputs

---
 src/_booz_xform/write_boozmn.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/_booz_xform/write_boozmn.cpp b/src/_booz_xform/write_boozmn.cpp
index 543e53b..7f38902 100644
--- a/src/_booz_xform/write_boozmn.cpp
+++ b/src/_booz_xform/write_boozmn.cpp
@@ -1,4 +1,5 @@
 #include <iostream>
+#include <stdexcept>
 #include <vector>
 #include "booz_xform.hpp"
 #include "netcdf_writer.hpp"
@@ -7,6 +8,23 @@ using namespace booz_xform;
 
 void Booz_xform::write_boozmn(std::string filename) {
   int j;
+
+  // If these sizes do not match, e.g. because run() has not been called
+  // since the inputs were changed, there are no consistent results to write.
+  bool ok = mnboz >= 1 && xm_b.size() == mnboz && xn_b.size() == mnboz
+    && ns_b >= 1 && compute_surfs.size() == ns_b && iota.size() == ns_in
+    && Boozer_I_all.size() == ns_in && Boozer_G_all.size() == ns_in;
+  for (const Matrix* x : {&bmnc_b, &rmnc_b, &zmns_b, &numns_b, &gmnc_b})
+    ok = ok && x->rows() == mnboz && x->cols() == ns_b;
+  if (asym) {
+    for (const Matrix* x : {&bmns_b, &rmns_b, &zmnc_b, &numnc_b, &gmns_b})
+      ok = ok && x->rows() == mnboz && x->cols() == ns_b;
+  }
+  if (phip.size() > 0)
+    ok = ok && phip.size() == ns_in + 1 && chi.size() == ns_in + 1
+      && pres.size() == ns_in + 1 && phi.size() == ns_in + 1;
+  if (!ok) throw std::runtime_error("There are no results consistent with the inputs to write. run() should be called first.");
+
   if (verbose > 0) std::cout << "Writing output to " << filename << std::endl;
   NetCDFWriter nc(filename);
 
-- 
2.43.0


From c11827c42291d595ca47afe4ec156ad246bc7639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:11 +0000
Subject: [PATCH 16/30] fix: modeplot failed when nmodes exceeds the number of
 available modes

---
 src/booz_xform/plots.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index 1417533..4550222 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -346,8 +346,7 @@ def modeplot(b,
     if not log:
         plt.plot([0, 1], [0, 0], ':k')
         
-    for jmode in range(nmodes):
-        index = indices[jmode]
+    for index in indices:
         plt.plot(rad, my_abs(data[index, :]),
                  label='$m=${}, $n=${}'.format(xm[index], xn[index]),
                  **kwargs)
-- 
2.43.0


From ac6805f7fa7491b8eed9d681c3fdb664fe61e8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:11 +0000
Subject: [PATCH 17/30] fix: wireplot showed no curves for refine=1

---
 src/booz_xform/plots.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index 4550222..35de00a 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -461,7 +461,7 @@ def wireplot(b,
         showlegend = True
         if index > 1:
             showlegend = False
-        if np.mod(index, refine) == 1:
+        if np.mod(index - 1, refine) == 0:
             data.append(go.Scatter3d(x=i, y=j, z=k,
                                      mode='lines', line=line_marker,
                                      showlegend=showlegend,
@@ -469,7 +469,7 @@ def wireplot(b,
     index = 0
     for i, j, k in zip(X.T, Y.T, Z.T):
         index += 1
-        if np.mod(index, refine) == 1:
+        if np.mod(index - 1, refine) == 0:
             data.append(go.Scatter3d(x=i, y=j, z=k,
                                      mode='lines', line=line_marker,
                                      showlegend=False))
@@ -501,7 +501,7 @@ def wireplot(b,
             showlegend = True
             if index > 1:
                 showlegend = False
-            if np.mod(index, refine) == 1:
+            if np.mod(index - 1, refine) == 0:
                 data.append(go.Scatter3d(x=i, y=j, z=k,
                                          mode='lines', line=line_marker,
                                          showlegend=showlegend,
@@ -509,7 +509,7 @@ def wireplot(b,
         index = 0
         for i, j, k in zip(X.T, Y.T, Z.T):
             index += 1
-            if np.mod(index, refine) == 1:
+            if np.mod(index - 1, refine) == 0:
                 data.append(go.Scatter3d(x=i, y=j, z=k,
                                          mode='lines', line=line_marker,
                                          showlegend=False))
-- 
2.43.0


From eff6c40043e4bb0afc147052bf712d22f78dbe32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:11 +0000
Subject: [PATCH 18/30] fix: wireplot used uninitialised input data when
 plotting a boozmn file

---
 src/booz_xform/plots.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index 35de00a..889da3e 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -383,7 +383,9 @@ def wireplot(b,
       nphi (int): Number of contours in the toroidal angle.
       refine (int): Number of grid points per curve segment between the contours.
       surf (bool): Whether to display a solid surface.
-      orig (bool): Whether to also display coordinate curves for the original angles
+      orig (bool): Whether to also display coordinate curves for the original angles.
+        These curves are not shown if the input data for the transformation are
+        not available, as is the case if only a boozmn_*.nc file was read.
     """
 
     b = handle_b_input(b)
@@ -475,7 +477,7 @@ def wireplot(b,
                                      showlegend=False))
 
     # Also show curves along which the original angles are constant:
-    if orig:
+    if orig and b.mnmax > 0:
         js = b.compute_surfs[js]
         R = np.zeros_like(theta)
         Z = np.zeros_like(theta)
-- 
2.43.0


From a03d52fb3330427a86f95367cd3ab78bdc502115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:11 +0000
Subject: [PATCH 19/30] fix: include the asymmetric modes in the surface normal
 of wireplot

---
 src/booz_xform/plots.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index 889da3e..fa6bbeb 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -421,6 +421,8 @@ def wireplot(b,
         if b.asym:
             R += b.rmns_b[jmn, js] * sinangle
             Z += b.zmnc_b[jmn, js] * cosangle
+            d_R_d_theta += m * b.rmns_b[jmn, js] * cosangle
+            d_Z_d_theta += -m * b.zmnc_b[jmn, js] * sinangle
             nu += b.numnc_b[jmn, js] * cosangle
 
     # Following the sign convention in the code, to convert from the
-- 
2.43.0


From d627178079f49765b1fdc68fae231c451eef66c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:11 +0000
Subject: [PATCH 20/30] fix: integer overflows for extreme resolutions

---
 src/_booz_xform/init.cpp           | 4 ++++
 src/_booz_xform/init_from_vmec.cpp | 7 +++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/_booz_xform/init.cpp b/src/_booz_xform/init.cpp
index d3d39e0..6503c41 100644
--- a/src/_booz_xform/init.cpp
+++ b/src/_booz_xform/init.cpp
@@ -2,6 +2,7 @@
 #include <iomanip>
 #include <cassert>
 #include <cstdlib>
+#include <limits>
 #include <stdexcept>
 #ifdef OPENMP
 #include <omp.h>
@@ -35,6 +36,9 @@ void Booz_xform::check_inputs() {
 
   check(nfp >= 1, "nfp must be at least 1");
   check(mboz >= 1 && nboz >= 0, "mboz must be at least 1 and nboz must be at least 0");
+  const long long max_int = std::numeric_limits<int>::max();
+  check((4LL * mboz + 2) <= max_int / (4LL * nboz + 2), "mboz and nboz are too large");
+  check(((long long) nboz) * nfp <= max_int, "nfp * nboz is too large");
   check(ns_in >= 1, "No input data, or ns_in is not at least 1");
   check(s_in.size() == ns_in, "s_in does not have size ns_in");
   check(iota.size() == ns_in, "iota does not have size ns_in");
diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index 816d262..0303d20 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -3,6 +3,7 @@
 #include <iomanip>
 #include <stdexcept>
 #include <algorithm>
+#include <limits>
 #include "booz_xform.hpp"
 #include "netcdf_reader.hpp"
 
@@ -40,6 +41,8 @@ void Booz_xform::init_from_vmec(int ns,
       if (pres0.size() != ns) throw std::runtime_error("pres0.size() is not ns");
       if (phi0.size() != ns) throw std::runtime_error("phi0.size() is not ns");
   }
+  if (mpol < 0 || mpol > std::numeric_limits<int>::max() / 6) throw std::runtime_error("mpol is out of range");
+  if (ntor < 0 || ntor > std::numeric_limits<int>::max() / 2) throw std::runtime_error("ntor is out of range");
   if (mnmax < 1) throw std::runtime_error("mnmax must be at least 1");
   if (mnmax_nyq < 1) throw std::runtime_error("mnmax_nyq must be at least 1");
   if (xm.size() != mnmax) throw std::runtime_error("Size of xm is not mnmax");
@@ -54,9 +57,9 @@ void Booz_xform::init_from_vmec(int ns,
   if (xm_nyq[0] != 0) throw std::runtime_error("xm_nyq does not seem correct");
   if (xn_nyq[0] != 0) throw std::runtime_error("xn_nyq does not seem correct");
   // if (xm[mnmax - 1] != mpol) throw std::runtime_error("xm does not seem correct");
-  if (xn[mnmax - 1] != nfp * ntor) throw std::runtime_error("xn does not seem correct");
+  if (xn[mnmax - 1] != ((long long) nfp) * ntor) throw std::runtime_error("xn does not seem correct");
   // if (xm_nyq[mnmax_nyq - 1] != mpol_nyq) throw std::runtime_error("xm_nyq does not seem correct");
-  if (xn_nyq[mnmax_nyq - 1] != nfp * ntor_nyq) throw std::runtime_error("xn_nyq does not seem correct");
+  if (xn_nyq[mnmax_nyq - 1] != ((long long) nfp) * ntor_nyq) throw std::runtime_error("xn_nyq does not seem correct");
 
   if (rmnc0.cols() != ns) throw std::runtime_error("rmnc0 has wrong number of cols");
   if (zmns0.cols() != ns) throw std::runtime_error("zmns0 has wrong number of cols");
-- 
2.43.0


From cddd8a19945cf3b3d514d54108ffee9023169c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:26 +0000
Subject: [PATCH 21/30] fix: leave Eigen arrays empty, not dangling, when a
 resize runs out of memory

---
 externalPackages/eigen/Eigen/src/Core/DenseStorage.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/externalPackages/eigen/Eigen/src/Core/DenseStorage.h b/externalPackages/eigen/Eigen/src/Core/DenseStorage.h
index 6966513..cb328c8 100644
--- a/externalPackages/eigen/Eigen/src/Core/DenseStorage.h
+++ b/externalPackages/eigen/Eigen/src/Core/DenseStorage.h
@@ -432,6 +432,7 @@ template<typename T, int _Options> class DenseStorage<T, Dynamic, Dynamic, Dynam
       if(size != m_rows*m_cols)
       {
         internal::conditional_aligned_delete_auto<T,(_Options&DontAlign)==0>(m_data, m_rows*m_cols);
+        m_data = 0; m_rows = 0; m_cols = 0; // in case the next allocation throws
         if (size>0) // >0 and not simply !=0 to let the compiler knows that size cannot be negative
           m_data = internal::conditional_aligned_new_auto<T,(_Options&DontAlign)==0>(size);
         else
@@ -509,6 +510,7 @@ template<typename T, int _Rows, int _Options> class DenseStorage<T, Dynamic, _Ro
       if(size != _Rows*m_cols)
       {
         internal::conditional_aligned_delete_auto<T,(_Options&DontAlign)==0>(m_data, _Rows*m_cols);
+        m_data = 0; m_cols = 0; // in case the next allocation throws
         if (size>0) // >0 and not simply !=0 to let the compiler knows that size cannot be negative
           m_data = internal::conditional_aligned_new_auto<T,(_Options&DontAlign)==0>(size);
         else
@@ -585,6 +587,7 @@ template<typename T, int _Cols, int _Options> class DenseStorage<T, Dynamic, Dyn
       if(size != m_rows*_Cols)
       {
         internal::conditional_aligned_delete_auto<T,(_Options&DontAlign)==0>(m_data, _Cols*m_rows);
+        m_data = 0; m_rows = 0; // in case the next allocation throws
         if (size>0) // >0 and not simply !=0 to let the compiler knows that size cannot be negative
           m_data = internal::conditional_aligned_new_auto<T,(_Options&DontAlign)==0>(size);
         else
-- 
2.43.0


From 5cdd91ac39b99e4424fa2e04f215d3990fb7d4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:34 +0000
Subject: [PATCH 22/30] fix: both command-line drivers recognise the same
 integers in the input file

---
 src/_booz_xform/driver.cpp | 22 ++++++++++++++++++----
 src/booz_xform/_cli.py     | 25 +++++++++++++++++--------
 2 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/src/_booz_xform/driver.cpp b/src/_booz_xform/driver.cpp
index fd8d637..c0faf94 100644
--- a/src/_booz_xform/driver.cpp
+++ b/src/_booz_xform/driver.cpp
@@ -6,6 +6,17 @@
 
 //using namespace booz_xform;
 
+/** Convert a token of the input file to an integer. Returns false if
+ *  the token as a whole is not an integer. As in _cli.py, an integer is
+ *  an optional sign followed by decimal digits.
+ */
+static bool parse_int(const std::string& token, int& val) {
+  size_t start = (token[0] == '+' || token[0] == '-') ? 1 : 0;
+  if (token.size() == start || token.find_first_not_of("0123456789", start) != std::string::npos) return false;
+  val = std::stoi(token); // Throws std::out_of_range if the value does not fit.
+  return true;
+}
+
 int booz_xform::driver(int argc, char* argv[]) {
   int j;
 
@@ -46,9 +57,11 @@ int booz_xform::driver(int argc, char* argv[]) {
   if (!file.is_open()) throw std::runtime_error(std::string("Unable to open input file ") + argv[1]);
 
   int mboz_in, nboz_in;
-  file >> mboz_in >> nboz_in;
+  std::string mboz_str, nboz_str;
+  file >> mboz_str >> nboz_str;
+  if (file.fail() || !parse_int(mboz_str, mboz_in) || !parse_int(nboz_str, nboz_in))
+    throw std::runtime_error("Unable to read mboz and nboz");
   std::cout << "Read mboz = " << mboz_in << ", nboz = " << nboz_in << std::endl;
-  if (file.fail()) throw std::runtime_error("Unable to read mboz and nboz");
 
   std::string extension;
   file >> extension;
@@ -57,9 +70,10 @@ int booz_xform::driver(int argc, char* argv[]) {
 
   std::vector<int> compute_surfs;
   int val;
+  std::string token;
   while (true) {
-    file >> val;
-    if (file.fail()) {
+    file >> token;
+    if (file.fail() || !parse_int(token, val)) {
       std::cout << "Unable to read more." << std::endl;
       break;
     }
diff --git a/src/booz_xform/_cli.py b/src/booz_xform/_cli.py
index 95008ba..7ba5c63 100644
--- a/src/booz_xform/_cli.py
+++ b/src/booz_xform/_cli.py
@@ -13,6 +13,8 @@ Source checkouts still get the C++ executable from ``cmake --build . --target
 xbooz_xform``; the two are interchangeable.
 """
 
+import os
+import re
 import sys
 
 from . import Booz_xform, __version__
@@ -42,6 +44,14 @@ where NS is the VMEC input parameter. You can omit <compute_surfs> from the inpu
 in which case the transformation will be performed on all half-grid surfaces."""
 
 
+def _is_int(token):
+    """Whether a token (bytes) is an integer.
+
+    As in driver.cpp, that is an optional sign followed by decimal digits.
+    """
+    return re.fullmatch(rb"[+-]?[0-9]+", token) is not None
+
+
 def _parse_input_file(filename):
     """Read an in_booz-style input file.
 
@@ -49,7 +59,8 @@ def _parse_input_file(filename):
     are handled the same way as the C++ ``>>`` extraction operators, i.e. all
     tokens are read in order and newlines are not significant.
     """
-    with open(filename) as f:
+    # Bytes rather than str, so only ASCII whitespace separates tokens, as in C++.
+    with open(filename, "rb") as f:
         tokens = f.read().split()
 
     if len(tokens) < 3:
@@ -57,24 +68,22 @@ def _parse_input_file(filename):
             "Unable to read mboz, nboz, and extension from " + filename
         )
 
-    try:
-        mboz, nboz = int(tokens[0]), int(tokens[1])
-    except ValueError:
+    if not (_is_int(tokens[0]) and _is_int(tokens[1])):
         raise RuntimeError("Unable to read mboz and nboz")
+    mboz, nboz = int(tokens[0]), int(tokens[1])
     print("Read mboz = {}, nboz = {}".format(mboz, nboz))
 
-    extension = tokens[2]
+    extension = os.fsdecode(tokens[2])
     print("Read extension =", extension)
 
     # As in driver.cpp, reading stops at the first token that is not an integer
     # rather than being treated as an error.
     compute_surfs = []
     for token in tokens[3:]:
-        try:
-            value = int(token)
-        except ValueError:
+        if not _is_int(token):
             print("Unable to read more.")
             break
+        value = int(token)
         print("Read value", value)
         compute_surfs.append(value)
 
-- 
2.43.0


From af83adc17bd457becdc3df22833c2bab3527569f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 23/30] fix: refuse integer array values that do not fit
 instead of wrapping them

---
 src/_booz_xform/bindings.cpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/_booz_xform/bindings.cpp b/src/_booz_xform/bindings.cpp
index 28a3b91..9748d13 100644
--- a/src/_booz_xform/bindings.cpp
+++ b/src/_booz_xform/bindings.cpp
@@ -1,4 +1,5 @@
 #include <iostream>
+#include <limits>
 #include <pybind11/pybind11.h>
 #include <pybind11/eigen.h>
 #include "booz_xform.hpp"
@@ -8,6 +9,22 @@ namespace py = pybind11;
 using namespace booz_xform;
 using namespace pybind11::literals; // For documenting function arguments
 
+// Get and set an integer array attribute. Values that an int cannot hold
+// exactly are refused, since numpy would convert them silently (so that
+// a surface index of 2**32, say, would become 0).
+template <IntVector Booz_xform::*member>
+static const IntVector& get_ints(const Booz_xform& b) { return b.*member; }
+
+template <IntVector Booz_xform::*member>
+static void set_ints(Booz_xform& b, const Vector& values) {
+  for (int j = 0; j < values.size(); j++) {
+    if (!(values[j] >= std::numeric_limits<int>::min() && values[j] <= std::numeric_limits<int>::max())
+	|| values[j] != (int) values[j])
+      throw py::value_error("The values must be integers that fit in 32 bits");
+  }
+  b.*member = values.cast<int>();
+}
+
 PYBIND11_MODULE(_booz_xform, m) {
   m.doc() = "Transformation to Boozer coordinates";
 
@@ -142,21 +159,21 @@ input arrays bmnc, bmns, bsubumnc, bsubumns, bsubvmnc, and bsubvmns.)")
 (int, input) Total number of Fourier modes for the input arrays
 bmnc, bmns, bsubumnc, bsubumns, bsubvmnc, and bsubvmns.)")
 
-    .def_readwrite("xm", &Booz_xform::xm, R"(
+    .def_property("xm", &get_ints<&Booz_xform::xm>, &set_ints<&Booz_xform::xm>, R"(
 (1D integer array of length mnmax, input) The poloidal Fourier mode
 numbers for the input arrays rmnc, rmns, zmnc, zmns, lmnc, and lmns.)")
 
-    .def_readwrite("xn", &Booz_xform::xn, R"(
+    .def_property("xn", &get_ints<&Booz_xform::xn>, &set_ints<&Booz_xform::xn>, R"(
 (1D integer array of length mnmax, input) The toroidal Fourier mode
 numbers for the input arrays rmnc, rmns, zmnc, zmns, lmnc, and
 lmns. The values should all be integer multiples of nfp.)")
 
-    .def_readwrite("xm_nyq", &Booz_xform::xm_nyq, R"(
+    .def_property("xm_nyq", &get_ints<&Booz_xform::xm_nyq>, &set_ints<&Booz_xform::xm_nyq>, R"(
 (1D integer array of length mnmax_nyq, input) The poloidal Fourier
 mode numbers for the input arrays bmnc, bmns, bsubumnc, bsubumns,
 bsubvmnc, and bsubvmns.)")
 
-    .def_readwrite("xn_nyq", &Booz_xform::xn_nyq, R"(
+    .def_property("xn_nyq", &get_ints<&Booz_xform::xn_nyq>, &set_ints<&Booz_xform::xn_nyq>, R"(
 (1D integer array of length mnmax_nyq, input) The toroidal Fourier
 mode numbers for the input arrays bmnc, bmns, bsubumnc, bsubumns,
 bsubvmnc, and bsubvmns. The values should all be integer multiples of
@@ -270,7 +287,7 @@ representing output quantities in Boozer coordinates. For example, if
 nboz=2 and nfp=10, the toroidal modes used will be n=-20, -10, 0, 10,
 20.)")
 
-    .def_readwrite("compute_surfs", &Booz_xform::compute_surfs, R"(
+    .def_property("compute_surfs", &get_ints<&Booz_xform::compute_surfs>, &set_ints<&Booz_xform::compute_surfs>, R"(
 (1D integer array, input) Indices of ns_in-sized radial arrays,
 specifying the flux surfaces for which the transformation to Boozer
 coordinates will be performed. All values should be >= 0 and < ns_in.
-- 
2.43.0


From c9b4dbb91d7f95af98c1326c885efb6cb09042d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:55 +0000
Subject: [PATCH 24/30] fix: symplot drew a mode in the colour of another group

The conditions for the legend entries 'Other helical' and 'Helical' were
interchanged.
---
 src/booz_xform/plots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index fa6bbeb..6451d5d 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -202,14 +202,14 @@ def symplot(b,
                              label=r'n = -n$_{fp}$ m (Helical)', **kwargs)
                 break
         for imode in range(mnmax):
-            if b.xn_b[imode] != 0 and b.xm_b[imode] != 0:
+            if b.xn_b[imode] != 0 and b.xm_b[imode] != 0 \
+               and b.xn_b[imode] != b.xm_b[imode] * b.nfp and b.xn_b[imode] != -b.xm_b[imode] * b.nfp:
                 plt.plot(rad, my_abs(data[imode, :]), color=helical_color,
                              label=r'Other helical', **kwargs)
                 break
     else:
         for imode in range(mnmax):
-            if b.xn_b[imode] != 0 and b.xm_b[imode] != 0 \
-               and b.xn_b[imode] != b.xm_b[imode] * b.nfp and b.xn_b[imode] != -b.xm_b[imode] * b.nfp:
+            if b.xn_b[imode] != 0 and b.xm_b[imode] != 0:
                 plt.plot(rad, my_abs(data[imode, :]), color=helical_color,
                              label=r'm $\ne$ 0, n $\ne$ 0 (Helical)', **kwargs)
                 break
-- 
2.43.0


From 0e88a9d1a5dd0c421b84a5725fa82dbbbd319d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:27 +0000
Subject: [PATCH 25/30] fix: modeplot and wireplot take the surface with the
 largest s as the outermost

compute_surfs need not be in increasing order, so the last surface need not
be the outermost one.
---
 src/booz_xform/plots.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index 6451d5d..f7ec518 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -328,7 +328,8 @@ def modeplot(b,
     # Sort by the absolute value of the mode amplitudes at the
     # outermost radius. Minus sign gives a decreasing instead of
     # increasing sort.
-    sorted_indices = np.argsort(-np.abs(data[:, -1]))
+    outermost = np.argmax(b.s_b)
+    sorted_indices = np.argsort(-np.abs(data[:, outermost]))
     indices = sorted_indices[:nmodes]
 
     if sqrts:
@@ -405,7 +406,7 @@ def wireplot(b,
 
     # If not otherwise specified, choose the outermost surface:
     if js is None:
-        js = b.ns_b - 1
+        js = np.argmax(b.s_b)
 
     for jmn in range(b.mnboz):
         m = b.xm_b[jmn]
-- 
2.43.0


From 33307ce26446d180e0b8701a9763360746909a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:01 +0000
Subject: [PATCH 26/30] fix: after a failed read there are no half-read data to
 run or write

---
 src/_booz_xform/read_boozmn.cpp | 32 +++++++++++++++++++-------------
 src/_booz_xform/read_wout.cpp   |  3 +++
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/_booz_xform/read_boozmn.cpp b/src/_booz_xform/read_boozmn.cpp
index 56960c7..8913457 100644
--- a/src/_booz_xform/read_boozmn.cpp
+++ b/src/_booz_xform/read_boozmn.cpp
@@ -14,6 +14,9 @@ void Booz_xform::read_boozmn(std::string filename) {
   if (verbose > 0) std::cout << "About to try reading boozmn netcdf file " << filename << std::endl;
   booz_xform::NetCDFReader nc(filename);
 
+  // If reading fails part way, there are no valid data left to run or write.
+  ns_in = 0;
+
   int asym_int;
   nc.get("lasym__logical__", asym_int);
   asym = (bool) asym_int;
@@ -38,14 +41,14 @@ void Booz_xform::read_boozmn(std::string filename) {
   iota_in.resize(radius);
   Boozer_G_in.resize(radius);
   Boozer_I_in.resize(radius);
-  ns_in = radius - 1;
-  iota.resize(ns_in);
-  Boozer_G_all.resize(ns_in);
-  Boozer_I_all.resize(ns_in);
-  phi.resize(ns_in+1);
-  phip.resize(ns_in+1);
-  chi.resize(ns_in+1);
-  pres.resize(ns_in+1);
+  int ns_half = radius - 1;
+  iota.resize(ns_half);
+  Boozer_G_all.resize(ns_half);
+  Boozer_I_all.resize(ns_half);
+  phi.resize(ns_half+1);
+  phip.resize(ns_half+1);
+  chi.resize(ns_half+1);
+  pres.resize(ns_half+1);
   nc.get("iota_b", iota_in);
   nc.get("bvco_b", Boozer_G_in);
   nc.get("buco_b", Boozer_I_in);
@@ -58,13 +61,13 @@ void Booz_xform::read_boozmn(std::string filename) {
       chi.setZero();
   }
   nc.get("pres_b", pres);
-  for (j = 0; j < ns_in; j++) {
+  for (j = 0; j < ns_half; j++) {
       iota[j] = iota_in[j+1];
       Boozer_G_all[j] = Boozer_G_in[j+1];
       Boozer_I_all[j] = Boozer_I_in[j+1];
   }
 
-  toroidal_flux = phi[ns_in];
+  toroidal_flux = phi[ns_half];
   
   ns_b = nc.getdim("comput_surfs");
   if (verbose > 0) std::cout << "Read mboz=" << mboz << ", nboz=" << nboz <<
@@ -74,12 +77,14 @@ void Booz_xform::read_boozmn(std::string filename) {
   nc.get("jlist", compute_surfs);
   // Fortran jlist is 1-based and includes an extra 1 from the 0 at
   // the first entry of half-grid quantities. compute_surfs is 0-based.
-  for (j = 0; j < ns_b; j++) compute_surfs[j] -= 2;
+  for (j = 0; j < ns_b; j++) {
+      if (compute_surfs[j] < 2 || compute_surfs[j] - 2 >= ns_half)
+          throw std::runtime_error("jlist has an entry that is not consistent with the radial grid");
+      compute_surfs[j] -= 2;
+  }
   Boozer_G.resize(ns_b);
   Boozer_I.resize(ns_b);
   for (j = 0; j < ns_b; j++) {
-      if (compute_surfs[j] < 0 || compute_surfs[j] >= ns_in)
-          throw std::runtime_error("jlist has an entry that is not consistent with the radial grid");
       Boozer_G[j] = Boozer_G_all[compute_surfs[j]];
       Boozer_I[j] = Boozer_I_all[compute_surfs[j]];
   }
@@ -130,5 +135,6 @@ void Booz_xform::read_boozmn(std::string filename) {
   if (verbose > 0) std::cout << "s_b=" << s_b << std::endl;
 
   nc.close();
+  ns_in = ns_half;
 
 }
diff --git a/src/_booz_xform/read_wout.cpp b/src/_booz_xform/read_wout.cpp
index 72f28cb..a6c2f74 100644
--- a/src/_booz_xform/read_wout.cpp
+++ b/src/_booz_xform/read_wout.cpp
@@ -13,6 +13,9 @@ void Booz_xform::read_wout(std::string filename, bool flux) {
   if (verbose > 0) std::cout << "About to try reading VMEC wout file " << filename << std::endl;
   booz_xform::NetCDFReader nc(filename);
 
+  // If reading fails part way, there are no valid data left to run or write.
+  ns_in = 0;
+
   int asym_int;
   nc.get("lasym__logical__", asym_int);
   asym = (bool) asym_int;
-- 
2.43.0


From 62f4283b045f7235a28aca9dbe82fad819a98c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:17 +0000
Subject: [PATCH 27/30] fix: integer overflow in run() for mpol or ntor at the
 limit of int

---
 src/_booz_xform/init.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/_booz_xform/init.cpp b/src/_booz_xform/init.cpp
index 6503c41..d590d62 100644
--- a/src/_booz_xform/init.cpp
+++ b/src/_booz_xform/init.cpp
@@ -47,6 +47,7 @@ void Booz_xform::check_inputs() {
   check(xm.size() == mnmax && xn.size() == mnmax, "xm or xn does not have size mnmax");
   check(xm_nyq.size() == mnmax_nyq && xn_nyq.size() == mnmax_nyq, "xm_nyq or xn_nyq does not have size mnmax_nyq");
   check(mpol >= 0 && ntor >= 0 && mpol_nyq >= 0 && ntor_nyq >= 0, "mpol, ntor, mpol_nyq and ntor_nyq cannot be negative");
+  check(mpol < max_int && ntor < max_int && mpol_nyq < max_int && ntor_nyq < max_int, "mpol, ntor, mpol_nyq or ntor_nyq is too large");
 
   int j;
   for (j = 0; j < mnmax; j++) {
-- 
2.43.0


From e27ee5536bbc3b9349f6aa1f7cdb397c5e3275bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:17 +0000
Subject: [PATCH 28/30] fix: run() raises an exception if the first Nyquist
 mode is not (0,0), instead of aborting or taking I and G from another mode

---
 src/_booz_xform/init.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/_booz_xform/init.cpp b/src/_booz_xform/init.cpp
index d590d62..f5300ac 100644
--- a/src/_booz_xform/init.cpp
+++ b/src/_booz_xform/init.cpp
@@ -49,6 +49,9 @@ void Booz_xform::check_inputs() {
   check(mpol >= 0 && ntor >= 0 && mpol_nyq >= 0 && ntor_nyq >= 0, "mpol, ntor, mpol_nyq and ntor_nyq cannot be negative");
   check(mpol < max_int && ntor < max_int && mpol_nyq < max_int && ntor_nyq < max_int, "mpol, ntor, mpol_nyq or ntor_nyq is too large");
 
+  // I and G are taken from the first Nyquist mode:
+  check(xm_nyq[0] == 0 && xn_nyq[0] == 0, "The first entries of xm_nyq and xn_nyq must be 0");
+
   int j;
   for (j = 0; j < mnmax; j++) {
     check(xm[j] >= 0 && xm[j] <= mpol, "xm has an entry that is negative or exceeds mpol");
@@ -205,8 +208,6 @@ void Booz_xform::init() {
   Boozer_G.setZero(ns_b);
   Boozer_I_all.setZero(ns_in);
   Boozer_G_all.setZero(ns_in);
-  assert (xm_nyq[0] == 0);
-  assert (xn_nyq[0] == 0);
   for (j = 0; j < ns_in; j++) {
     Boozer_I_all[j] = bsubumnc(0, j);
     Boozer_G_all[j] = bsubvmnc(0, j);
-- 
2.43.0


From 50e49570ce1273ac71204f0da803b91275d4896a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:17 +0000
Subject: [PATCH 29/30] fix: write_boozmn refuses surfaces that do not exist

---
 src/_booz_xform/write_boozmn.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/_booz_xform/write_boozmn.cpp b/src/_booz_xform/write_boozmn.cpp
index 7f38902..9e7fe4b 100644
--- a/src/_booz_xform/write_boozmn.cpp
+++ b/src/_booz_xform/write_boozmn.cpp
@@ -20,6 +20,8 @@ void Booz_xform::write_boozmn(std::string filename) {
     for (const Matrix* x : {&bmns_b, &rmns_b, &zmnc_b, &numnc_b, &gmns_b})
       ok = ok && x->rows() == mnboz && x->cols() == ns_b;
   }
+  for (j = 0; j < compute_surfs.size(); j++)
+    ok = ok && compute_surfs[j] >= 0 && compute_surfs[j] < ns_in;
   if (phip.size() > 0)
     ok = ok && phip.size() == ns_in + 1 && chi.size() == ns_in + 1
       && pres.size() == ns_in + 1 && phi.size() == ns_in + 1;
-- 
2.43.0


From 806e84b615e35643fe4357972df0e597efe29949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:23 +0000
Subject: [PATCH 30/30] fix: integer overflows for extreme nfp in init() and
 surface_solve()

---
 src/_booz_xform/init.cpp          | 2 +-
 src/_booz_xform/surface_solve.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/_booz_xform/init.cpp b/src/_booz_xform/init.cpp
index f5300ac..ee4383e 100644
--- a/src/_booz_xform/init.cpp
+++ b/src/_booz_xform/init.cpp
@@ -164,7 +164,7 @@ void Booz_xform::init() {
     // d_theta = twopi / (2 * (ntheta / 2)) = twopi / ntheta.
   }
 
-  d_zeta = twopi / (nfp * nzeta);
+  d_zeta = twopi / (((boozfloat) nfp) * nzeta);
 
   // Initialize grids of (theta, zeta) for integration:
   theta_grid.setZero(nu3_b * nzeta);
diff --git a/src/_booz_xform/surface_solve.cpp b/src/_booz_xform/surface_solve.cpp
index e037a2c..46262d1 100644
--- a/src/_booz_xform/surface_solve.cpp
+++ b/src/_booz_xform/surface_solve.cpp
@@ -130,7 +130,7 @@ void Booz_xform::surface_solve(int js_b) {
     //std::cout << " " << lmns(jmn, js);
     m = xm[jmn];
     n = xn[jmn];
-    abs_n = std::abs(n) / nfp;
+    abs_n = std::abs(n / nfp);
     if (n < 0) {
       sign = -1;
     } else {
-- 
2.43.0

