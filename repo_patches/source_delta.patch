From e9545a55a3251d7da6ee71d015d28257e54d2425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:54 +0000
Subject: [PATCH 01/48] fix: register NO_ENLARG_PROP under its own keyword (was
 bound to TH a second time)

---
 src/config/ecf/linearsolver/feti.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config/ecf/linearsolver/feti.cpp b/src/config/ecf/linearsolver/feti.cpp
index 759053d..ad473b3 100644
--- a/src/config/ecf/linearsolver/feti.cpp
+++ b/src/config/ecf/linearsolver/feti.cpp
@@ -211,7 +211,7 @@ espreso::FETIConfiguration::FETIConfiguration()
             .setdescription({ "SMALSE no_enlarg_exp" })
             .setdatatype({ ECFDataType::INTEGER }));
     no_enlarg_prop = 0;
-    REGISTER(th, ECFMetaData()
+    REGISTER(no_enlarg_prop, ECFMetaData()
             .setdescription({ "SMALSE no_enlarg_prop" })
             .setdatatype({ ECFDataType::INTEGER }));
 
-- 
2.43.0


From c96d9e3b949aa22b04bb90815caa8dca377586e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:54 +0000
Subject: [PATCH 02/48] fix: register MASS_MATRIX_TYPE of the second order
 transient solver (was a second METHOD)

---
 .../physics/physicssolver/transientsecondorderimplicit.cpp    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/config/ecf/physics/physicssolver/transientsecondorderimplicit.cpp b/src/config/ecf/physics/physicssolver/transientsecondorderimplicit.cpp
index 7e87379..432b4ea 100644
--- a/src/config/ecf/physics/physicssolver/transientsecondorderimplicit.cpp
+++ b/src/config/ecf/physics/physicssolver/transientsecondorderimplicit.cpp
@@ -41,8 +41,8 @@ TransientSecondOrderImplicitSolverConfiguration::TransientSecondOrderImplicitSol
     ecfdescription->addSpace();
 
     mass_matrix_type = MASS_MATRIX_TYPE::CONSISTENT;
-    REGISTER(method, ECFMetaData()
-            .setdescription({ "Method" })
+    REGISTER(mass_matrix_type, ECFMetaData()
+            .setdescription({ "Mass matrix type" })
             .setdatatype({ ECFDataType::OPTION })
             .addoption(ECFOption().setname("CONSISTENT").setdescription("Consistent method."))
             .addoption(ECFOption().setname("DIAGONAL").setdescription("Diagonal method."))
-- 
2.43.0


From b8b0cb10876a608f02aee3224d568551bcdca125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:54 +0000
Subject: [PATCH 03/48] fix: QUENCH and QUENCH_PARALLEL convection variants
 selected each other

---
 src/config/ecf/physics/heattransfer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/config/ecf/physics/heattransfer.cpp b/src/config/ecf/physics/heattransfer.cpp
index 21d4fc5..897417a 100644
--- a/src/config/ecf/physics/heattransfer.cpp
+++ b/src/config/ecf/physics/heattransfer.cpp
@@ -30,8 +30,8 @@ ConvectionConfiguration::ConvectionConfiguration()
             .addoption(ECFOption().setname("PARALLEL_PLATES").setdescription("Parallel plates."))
             .addoption(ECFOption().setname("CIRCULAR_TUBE").setdescription("Circular tube."))
             .addoption(ECFOption().setname("TUBE").setdescription("Tube."))
-            .addoption(ECFOption().setname("QUENCH_PARALLEL").setdescription("Quench parallel plate."))
-            .addoption(ECFOption().setname("QUENCH").setdescription("Quench.")));
+            .addoption(ECFOption().setname("QUENCH").setdescription("Quench."))
+            .addoption(ECFOption().setname("QUENCH_PARALLEL").setdescription("Quench parallel plate.")));
 
     fluid = FLUID::AIR;
     REGISTER(fluid, ECFMetaData()
-- 
2.43.0


From f572852238f2ac92c22093790d58caf5b6c33652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:54 +0000
Subject: [PATCH 04/48] fix: default RADIUS and GAP of fixed sphere and tube
 (were uninitialized)

---
 src/config/ecf/physics/structuralmechanics.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/config/ecf/physics/structuralmechanics.cpp b/src/config/ecf/physics/structuralmechanics.cpp
index 838cf6b..28910f7 100644
--- a/src/config/ecf/physics/structuralmechanics.cpp
+++ b/src/config/ecf/physics/structuralmechanics.cpp
@@ -155,14 +155,14 @@ FixedWallConfiguration::FixedWallConfiguration(): gap(1)
     REGISTER(gap, ECFMetaData().setdescription({ "Maximal distance from the wall to be considered in computation." }).setdatatype({ ECFDataType::FLOAT }));
 }
 
-FixedSphereConfiguration::FixedSphereConfiguration(): radius(1)
+FixedSphereConfiguration::FixedSphereConfiguration(): radius(1), gap(1)
 {
     REGISTER(center, ECFMetaData().setdescription({ "Center of the sphere." }));
     REGISTER(radius, ECFMetaData().setdescription({ "Radius of the sphere." }).setdatatype({ ECFDataType::FLOAT }));
     REGISTER(gap, ECFMetaData().setdescription({ "Gap over the sphere that is considered in contacts." }).setdatatype({ ECFDataType::FLOAT }));
 }
 
-FixedTubeConfiguration::FixedTubeConfiguration()
+FixedTubeConfiguration::FixedTubeConfiguration(): radius(1), gap(1)
 {
     REGISTER(center, ECFMetaData().setdescription({ "Center of the tube." }));
     REGISTER(direction, ECFMetaData().setdescription({ "direction of the tube." }));
-- 
2.43.0


From 32b7aa928c2db5e5850f7927714f97f20622b1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:54 +0000
Subject: [PATCH 05/48] fix: reject a numeric value that is not an index of an
 option

---
 src/config/holders/valueholder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config/holders/valueholder.h b/src/config/holders/valueholder.h
index aa206af..8841a5a 100644
--- a/src/config/holders/valueholder.h
+++ b/src/config/holders/valueholder.h
@@ -190,7 +190,7 @@ struct ECFEnumHolder: public ECFValue {
         }
 
         if (index == (size_t)-1) {
-            if (!ECFValueHolder<size_t>(index)._setValue(value)) {
+            if (!ECFValueHolder<size_t>(index)._setValue(value) || index >= metadata.options.size()) {
                 return false;
             }
         }
-- 
2.43.0


From ea456b22cf8cfc87a5273799ac54637f63e9f042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:22 +0000
Subject: [PATCH 06/48] fix: reject a boolean parameter with a number other
 than 0 and 1

---
 src/config/holders/valueholder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config/holders/valueholder.h b/src/config/holders/valueholder.h
index 8841a5a..aa9ebd4 100644
--- a/src/config/holders/valueholder.h
+++ b/src/config/holders/valueholder.h
@@ -120,7 +120,7 @@ inline bool ECFValueHolder<bool>::_setValue(const std::string &value)
         }
         std::stringstream ss(value);
         ss >> this->value;
-        return ss.eof();
+        return ss.eof() && !ss.fail();
     }
 }
 
-- 
2.43.0


From aaa85a2608e995a40ddeec65e017c5f0718abbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:05 +0000
Subject: [PATCH 07/48] fix: configuration reader ran past the end of a file
 with an unterminated comment or ${ (or without the last newline)

---
 src/config/reader/tokenizer.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/config/reader/tokenizer.cpp b/src/config/reader/tokenizer.cpp
index e85b97c..2eac462 100644
--- a/src/config/reader/tokenizer.cpp
+++ b/src/config/reader/tokenizer.cpp
@@ -180,8 +180,11 @@ Tokenizer::Token Tokenizer::_next()
         if (_buffer.size() && isMultiLineCommentStart(_buffer.back(), _file.peek())) {
             _buffer.pop_back();
             _file.get();
-            int last = _file.get();
-            while(!isMultiLineCommentEnd(last, _file.peek())) {
+            int last = 0;
+            while(_file.eof() || !isMultiLineCommentEnd(last, _file.peek())) {
+                if (_file.eof()) {
+                    eslog::globalerror("Configuration file error: missing comment end symbol '*/'\n");
+                }
                 if (isLineEnd(_file.peek())) {
                     _line++;
                 }
@@ -239,8 +242,8 @@ Tokenizer::Token Tokenizer::_next()
             _file.get();
             if (isObjectOpen(_file.peek())) {
                 _file.get();
-                while (!isObjectClose(_file.peek())) {
-                    if (isLineEnd(_file.peek())) {
+                while (_file.eof() || !isObjectClose(_file.peek())) {
+                    if (_file.eof() || isLineEnd(_file.peek())) {
                         eslog::globalerror("Configuration file error: use ${...} to read environment parameter.\n");
                     }
                     _buffer.push_back(_file.get());
@@ -291,7 +294,7 @@ std::string Tokenizer::lastLines(size_t number)
     _file.move(0);
     while (_file.position() < current) {
         size_t begin = _file.position();
-        while(_file.get() != '\n');
+        while(!_file.eof() && _file.get() != '\n');
         lines.push(_file.get(begin, _file.position()));
         if (lines.size() > number) {
             lines.pop();
-- 
2.43.0


From 7502576bc8059359415401f001e6fb0fa1b7e11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:42 +0000
Subject: [PATCH 08/48] fix: surface triangulation of TRIANGLE6 covered one
 corner twice

---
 src/mesh/element.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/mesh/element.cpp b/src/mesh/element.cpp
index 371dcca..f36502e 100644
--- a/src/mesh/element.cpp
+++ b/src/mesh/element.cpp
@@ -156,7 +156,6 @@ template<> void Element::init<Element::CODE::TRIANGLE6>()
         0, 3, 5,
         3, 1, 4,
         4, 2, 5,
-        5, 0, 3,
         3, 4, 5
     };
 
-- 
2.43.0


From 7f8f45bd0a283f592d15983f566571e054d4497c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:36 +0000
Subject: [PATCH 09/48] fix: OMIT_MIDPOINTS keeps the nodes of linear elements

---
 src/input/meshbuilder.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/input/meshbuilder.cpp b/src/input/meshbuilder.cpp
index 251df8c..153d98d 100644
--- a/src/input/meshbuilder.cpp
+++ b/src/input/meshbuilder.cpp
@@ -33,14 +33,16 @@ void MeshBuilder::build()
     if (info::ecf->input.omit_midpoints) {
         size_t shrinked = 0;
         for (size_t i = 0, offset = 0; i < etype.size(); ++i) {
+            esint coarse = esize[i];
             if (Mesh::edata[etype[i]].nodes != Mesh::edata[etype[i]].coarseNodes) {
-                for (esint n = 0; n < Mesh::edata[etype[i]].coarseNodes; n++) {
-                    enodes[shrinked + n] = enodes[offset + n];
-                }
-                offset += Mesh::edata[etype[i]].nodes;
-                shrinked += Mesh::edata[etype[i]].coarseNodes;
-                esize[i] = Mesh::edata[etype[i]].coarseNodes;
+                coarse = Mesh::edata[etype[i]].coarseNodes;
+            }
+            for (esint n = 0; n < coarse; n++) {
+                enodes[shrinked + n] = enodes[offset + n];
             }
+            offset += esize[i];
+            shrinked += coarse;
+            esize[i] = coarse;
             switch (etype[i]) {
             case (int)Element::CODE::LINE3:     etype[i] = (int)Element::CODE::LINE2; break;
             case (int)Element::CODE::TRIANGLE6: etype[i] = (int)Element::CODE::TRIANGLE3; break;
-- 
2.43.0


From 6076155ed2ec515da243d3f662e77b5ac16d7594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:36 +0000
Subject: [PATCH 10/48] fix: an unsupported element type in a Neper .msh file
 is an error

---
 src/input/parsers/neper/parser/msh.parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/input/parsers/neper/parser/msh.parser.cpp b/src/input/parsers/neper/parser/msh.parser.cpp
index 655ecd6..3ba0707 100644
--- a/src/input/parsers/neper/parser/msh.parser.cpp
+++ b/src/input/parsers/neper/parser/msh.parser.cpp
@@ -193,6 +193,7 @@ void NeperMshMesh::parseASCII(MeshBuilder &mesh)
         case 6:  dim = 3; type = (int)Element::CODE::PRISMA6;   enodes =  6; break;
         case 18: dim = 3; type = (int)Element::CODE::PRISMA15;  enodes = 15; break;
         case 10: eslog::error("MESIO internal error: unsupported element SQUARE with 9 nodes."); break;
+        default: eslog::error("MESIO internal error: unsupported element type in the '.msh' file.\n");
         }
         switch (edata[i++]) { // tags
         case 0: break;
-- 
2.43.0


From 7f2b1b2d7f25b0a5ab986098f8efb2df2bbd1189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:51 +0000
Subject: [PATCH 11/48] fix: convert_csx_dny reports matrices that were not set

---
 src/math/operations/convert_csx_dny.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/math/operations/convert_csx_dny.cpp b/src/math/operations/convert_csx_dny.cpp
index 0c1b04e..283c44d 100644
--- a/src/math/operations/convert_csx_dny.cpp
+++ b/src/math/operations/convert_csx_dny.cpp
@@ -37,6 +37,8 @@ void convert_csx_dny<T,I>::perform_zerofill()
 {
     stacktimer::push("convert_csx_dny::perform_zerofill");
 
+    if(M_src == nullptr) eslog::error("source matrix is not set\n");
+    if(M_dst == nullptr) eslog::error("destination matrix is not set\n");
     if(!M_src->ator->is_data_accessible_cpu()) eslog::error("source matrix must be cpu-accessible\n");
     if(!M_dst->ator->is_data_accessible_cpu()) eslog::error("destination matrix must be cpu-accessible\n");
     if(M_src->nrows != M_dst->nrows || M_src->ncols != M_dst->ncols) eslog::error("matrix dimensions don't match\n");
@@ -55,6 +57,8 @@ void convert_csx_dny<T,I>::perform_copyvals()
 {
     stacktimer::push("convert_csx_dny::perform_copyvals");
 
+    if(M_src == nullptr) eslog::error("source matrix is not set\n");
+    if(M_dst == nullptr) eslog::error("destination matrix is not set\n");
     if(!M_src->ator->is_data_accessible_cpu()) eslog::error("source matrix must be cpu-accessible\n");
     if(!M_dst->ator->is_data_accessible_cpu()) eslog::error("destination matrix must be cpu-accessible\n");
     if(M_src->nrows != M_dst->nrows || M_src->ncols != M_dst->ncols) eslog::error("matrix dimensions don't match\n");
-- 
2.43.0


From 3661f73d7c37f1b8fcb7dae7d2a64a5848e3d06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:51 +0000
Subject: [PATCH 12/48] fix: permute_csx_csx_map reports values requested
 before the pattern

---
 src/math/operations/permute_csx_csx_map.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/math/operations/permute_csx_csx_map.cpp b/src/math/operations/permute_csx_csx_map.cpp
index 33c6ed1..8e2d092 100644
--- a/src/math/operations/permute_csx_csx_map.cpp
+++ b/src/math/operations/permute_csx_csx_map.cpp
@@ -106,6 +106,8 @@ void permute_csx_csx_map<T,I>::perform_pattern()
     M_dst->ptrs[M_dst->get_size_primary()] = curr_idx;
 
     stacktimer::pop();
+
+    called_perform_pattern = true;
 }
 
 
@@ -115,6 +117,8 @@ void permute_csx_csx_map<T,I>::perform_values()
 {
     stacktimer::push("permute_csx_csx_map::perform_values");
 
+    if(!called_perform_pattern) eslog::error("perform pattern was not called\n");
+
     for(size_t i = 0; i < M_src->nnz; i++) {
         M_dst->vals[i] = M_src->vals[map_dst_to_src.vals[i]];
     }
-- 
2.43.0


From 31561e3b025f73491b49d5e53dd23c58c2364ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:51 +0000
Subject: [PATCH 13/48] fix: herk_dnx_dny_tri reports a pattern given before
 matrix A

---
 src/math/operations/herk_dnx_dny_tri.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math/operations/herk_dnx_dny_tri.cpp b/src/math/operations/herk_dnx_dny_tri.cpp
index 8ddf39d..48070a0 100644
--- a/src/math/operations/herk_dnx_dny_tri.cpp
+++ b/src/math/operations/herk_dnx_dny_tri.cpp
@@ -65,6 +65,7 @@ void herk_dnx_dny_tri<T,I>::calc_A_pattern(MatrixCsxView_new<T,I> & A_pattern)
 
     if(!mode_set) eslog::error("mode is not set\n");
     if(pattern_set) eslog::error("A pattern was already set\n");
+    if(A == nullptr) eslog::error("matrix A is not set\n");
     if(!A_pattern.ator->is_data_accessible_cpu()) eslog::error("matrix A_pattern must be cpu-accessible\n");
 
     if(mode == blas::herk_mode::AhA) {
-- 
2.43.0


From d053ff56a3091a5beddb91b3cfb1e3473fdbf775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:51 +0000
Subject: [PATCH 14/48] fix: destruction of an unused schur_csx_dny_mklpardiso
 (crashed on null data)

---
 src/wrappers/mkl/operations/schur_csx_dny.mklpardiso.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wrappers/mkl/operations/schur_csx_dny.mklpardiso.cpp b/src/wrappers/mkl/operations/schur_csx_dny.mklpardiso.cpp
index 1a00798..a6002bd 100644
--- a/src/wrappers/mkl/operations/schur_csx_dny.mklpardiso.cpp
+++ b/src/wrappers/mkl/operations/schur_csx_dny.mklpardiso.cpp
@@ -68,6 +68,8 @@ schur_csx_dny_mklpardiso<T,I>::schur_csx_dny_mklpardiso() {}
 template<typename T, typename I>
 schur_csx_dny_mklpardiso<T,I>::~schur_csx_dny_mklpardiso()
 {
+    if(!data) return;
+
     MKL_INT phase = -1;
     pardiso(data->pt, nullptr, nullptr, &data->mtype, &phase, &data->size_matrix_mklint, nullptr, nullptr, nullptr, nullptr, nullptr, data->iparm, &data->msglvl, nullptr, nullptr, &data->error);
     if(data->error != 0) {
-- 
2.43.0


From 521c8b93736af74144792a2eacd10fc7d0f95cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:51 +0000
Subject: [PATCH 15/48] fix: gpu schur reports an input matrix without the
 upper part (was null dereference)

---
 src/gpu/operations/schur_hcsx_ddny.manual_simple.cpp | 4 +---
 src/gpu/operations/schur_hcsx_ddny.tria.cpp          | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/gpu/operations/schur_hcsx_ddny.manual_simple.cpp b/src/gpu/operations/schur_hcsx_ddny.manual_simple.cpp
index bcb9dc1..85a3051 100644
--- a/src/gpu/operations/schur_hcsx_ddny.manual_simple.cpp
+++ b/src/gpu/operations/schur_hcsx_ddny.manual_simple.cpp
@@ -173,9 +173,7 @@ void schur_hcsx_ddny_manual_simple<T,I>::internal_setup()
         if(h_A->prop.uplo != 'U') h_A21 = &data->sub_h_A21;
         h_A22 = &data->sub_h_A22;
     }
-    if(called_set_matrix == '4') {
-        if(h_A12 == nullptr) eslog::error("the upper part of matrix must be stored\n");
-    }
+    if(h_A12 == nullptr) eslog::error("the upper part of matrix must be stored\n");
 
     data->solver_factor_uplo = h_A11->prop.uplo;
 
diff --git a/src/gpu/operations/schur_hcsx_ddny.tria.cpp b/src/gpu/operations/schur_hcsx_ddny.tria.cpp
index bd248df..fa11647 100644
--- a/src/gpu/operations/schur_hcsx_ddny.tria.cpp
+++ b/src/gpu/operations/schur_hcsx_ddny.tria.cpp
@@ -157,9 +157,7 @@ void schur_hcsx_ddny_tria<T,I>::internal_setup()
         if(h_A->prop.uplo != 'U') h_A21 = &data->sub_h_A21;
         h_A22 = &data->sub_h_A22;
     }
-    if(called_set_matrix == '4') {
-        if(h_A12 == nullptr) eslog::error("the upper part of matrix must be stored\n");
-    }
+    if(h_A12 == nullptr) eslog::error("the upper part of matrix must be stored\n");
 
     data->solver_factor_uplo = h_A11->prop.uplo;
 
-- 
2.43.0


From 939d229c1631997ddf14519a290dce1ae57f50f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:51 +0000
Subject: [PATCH 16/48] fix: gpu operations report missing handles, mode and
 config

---
 src/gpu/operations/auxiliary/trsm_hcsx_ddny_tri_splitfactor.cpp | 1 +
 src/gpu/operations/auxiliary/trsm_hcsx_ddny_tri_splitrhs.cpp    | 1 +
 src/gpu/operations/herk_ddnx_ddny_tri.cpp                       | 1 +
 src/gpu/operations/schur_hcsx_ddny.cpp                          | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/gpu/operations/auxiliary/trsm_hcsx_ddny_tri_splitfactor.cpp b/src/gpu/operations/auxiliary/trsm_hcsx_ddny_tri_splitfactor.cpp
index 24463db..a3271fd 100644
--- a/src/gpu/operations/auxiliary/trsm_hcsx_ddny_tri_splitfactor.cpp
+++ b/src/gpu/operations/auxiliary/trsm_hcsx_ddny_tri_splitfactor.cpp
@@ -77,6 +77,7 @@ void trsm_hcsx_ddny_tri_splitfactor<T,I>::setup()
 {
     stacktimer::push("trsm_hcsx_ddny_tri_splitfactor::setup");
 
+    if(!called_set_config) eslog::error("config is not set\n");
     if(!called_set_handles) eslog::error("handles are not set\n");
     if(h_L == nullptr) eslog::error("matrix L is not set\n");
     if(d_X == nullptr) eslog::error("matrix X is not set\n");
diff --git a/src/gpu/operations/auxiliary/trsm_hcsx_ddny_tri_splitrhs.cpp b/src/gpu/operations/auxiliary/trsm_hcsx_ddny_tri_splitrhs.cpp
index fde9194..ad18446 100644
--- a/src/gpu/operations/auxiliary/trsm_hcsx_ddny_tri_splitrhs.cpp
+++ b/src/gpu/operations/auxiliary/trsm_hcsx_ddny_tri_splitrhs.cpp
@@ -76,6 +76,7 @@ void trsm_hcsx_ddny_tri_splitrhs<T,I>::setup()
 {
     stacktimer::push("trsm_hcsx_ddny_tri_splitrhs::setup");
 
+    if(!called_set_config) eslog::error("config is not set\n");
     if(!called_set_handles) eslog::error("handles are not set\n");
     if(h_L == nullptr) eslog::error("matrix L is not set\n");
     if(d_X == nullptr) eslog::error("matrix X is not set\n");
diff --git a/src/gpu/operations/herk_ddnx_ddny_tri.cpp b/src/gpu/operations/herk_ddnx_ddny_tri.cpp
index e390564..b84963d 100644
--- a/src/gpu/operations/herk_ddnx_ddny_tri.cpp
+++ b/src/gpu/operations/herk_ddnx_ddny_tri.cpp
@@ -89,6 +89,7 @@ void herk_ddnx_ddny_tri<T,I>::setup()
     stacktimer::push("herk_ddnx_ddny_tri::setup");
 
     if(!called_set_handles) eslog::error("handles are not set\n");
+    if(!called_set_mode) eslog::error("mode is not set\n");
     if(d_A == nullptr) eslog::error("matrix A is not set\n");
     if(d_C == nullptr) eslog::error("matrix C is not set\n");
     if(h_A_pattern == nullptr) eslog::error("A pattern is not set\n");
diff --git a/src/gpu/operations/schur_hcsx_ddny.cpp b/src/gpu/operations/schur_hcsx_ddny.cpp
index a41e2aa..152c501 100644
--- a/src/gpu/operations/schur_hcsx_ddny.cpp
+++ b/src/gpu/operations/schur_hcsx_ddny.cpp
@@ -110,6 +110,7 @@ void schur_hcsx_ddny<T,I>::setup()
     stacktimer::push("schur_hcsx_ddny::setup");
 
     if(called_setup) eslog::error("setup was already called\n");
+    if(!called_set_handles) eslog::error("handles are not set\n");
     if(called_set_matrix == '_') eslog::error("matrix is not set\n");
     if(d_sc == nullptr) eslog::error("d_sc is not set\n");
     if(!d_sc->ator->is_data_accessible_gpu()) eslog::error("matrix sc must be gpu-accessible\n");
-- 
2.43.0


From fa5752b4ee8ccd7c494e74c290b0ff867a240145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:26 +0000
Subject: [PATCH 17/48] fix: gpu operations report workspace sizes requested
 before setup

---
 src/gpu/operations/gemm_hcsx_ddny_ddnz_prune.cpp | 8 ++++++++
 src/gpu/operations/lincomb_ddnx_dcsy.cpp         | 2 ++
 src/gpu/operations/schur_hcsx_ddny.cpp           | 8 ++++++++
 3 files changed, 18 insertions(+)

diff --git a/src/gpu/operations/gemm_hcsx_ddny_ddnz_prune.cpp b/src/gpu/operations/gemm_hcsx_ddny_ddnz_prune.cpp
index 38e2a07..c9242a1 100644
--- a/src/gpu/operations/gemm_hcsx_ddny_ddnz_prune.cpp
+++ b/src/gpu/operations/gemm_hcsx_ddny_ddnz_prune.cpp
@@ -249,6 +249,8 @@ void gemm_hcsx_ddny_ddnz_prune<T,I>::setup()
 template<typename T, typename I>
 size_t gemm_hcsx_ddny_ddnz_prune<T,I>::get_wss_internal()
 {
+    if(!called_setup) eslog::error("setup was not called\n");
+
     return wss_internal;
 }
 
@@ -257,6 +259,8 @@ size_t gemm_hcsx_ddny_ddnz_prune<T,I>::get_wss_internal()
 template<typename T, typename I>
 size_t gemm_hcsx_ddny_ddnz_prune<T,I>::get_wss_persistent()
 {
+    if(!called_setup) eslog::error("setup was not called\n");
+
     return wss_persistent;
 }
 
@@ -265,6 +269,8 @@ size_t gemm_hcsx_ddny_ddnz_prune<T,I>::get_wss_persistent()
 template<typename T, typename I>
 size_t gemm_hcsx_ddny_ddnz_prune<T,I>::get_wss_tmp_preprocess()
 {
+    if(!called_setup) eslog::error("setup was not called\n");
+
     return wss_tmp_preprocess;
 }
 
@@ -273,6 +279,8 @@ size_t gemm_hcsx_ddny_ddnz_prune<T,I>::get_wss_tmp_preprocess()
 template<typename T, typename I>
 size_t gemm_hcsx_ddny_ddnz_prune<T,I>::get_wss_tmp_perform()
 {
+    if(!called_setup) eslog::error("setup was not called\n");
+
     return wss_tmp_perform;
 }
 
diff --git a/src/gpu/operations/lincomb_ddnx_dcsy.cpp b/src/gpu/operations/lincomb_ddnx_dcsy.cpp
index 9e46b88..328e274 100644
--- a/src/gpu/operations/lincomb_ddnx_dcsy.cpp
+++ b/src/gpu/operations/lincomb_ddnx_dcsy.cpp
@@ -114,6 +114,8 @@ void lincomb_ddnx_dcsy<T,I>::setup()
 template<typename T, typename I>
 size_t lincomb_ddnx_dcsy<T,I>::get_wss_tmp_perform()
 {
+    if(!called_setup) eslog::error("setup was not called\n");
+
     return wss_tmp_perform;
 }
 
diff --git a/src/gpu/operations/schur_hcsx_ddny.cpp b/src/gpu/operations/schur_hcsx_ddny.cpp
index 152c501..a1aebb6 100644
--- a/src/gpu/operations/schur_hcsx_ddny.cpp
+++ b/src/gpu/operations/schur_hcsx_ddny.cpp
@@ -180,6 +180,8 @@ void schur_hcsx_ddny<T,I>::setup()
 template<typename T, typename I>
 size_t schur_hcsx_ddny<T,I>::get_wss_internal()
 {
+    if(!called_setup) eslog::error("setup was not called\n");
+
     return wss_internal;
 }
 
@@ -188,6 +190,8 @@ size_t schur_hcsx_ddny<T,I>::get_wss_internal()
 template<typename T, typename I>
 size_t schur_hcsx_ddny<T,I>::get_wss_persistent()
 {
+    if(!called_setup) eslog::error("setup was not called\n");
+
     return wss_persistent;
 }
 
@@ -196,6 +200,8 @@ size_t schur_hcsx_ddny<T,I>::get_wss_persistent()
 template<typename T, typename I>
 size_t schur_hcsx_ddny<T,I>::get_wss_tmp_preprocess()
 {
+    if(!called_setup) eslog::error("setup was not called\n");
+
     return wss_tmp_preprocess;
 }
 
@@ -204,6 +210,8 @@ size_t schur_hcsx_ddny<T,I>::get_wss_tmp_preprocess()
 template<typename T, typename I>
 size_t schur_hcsx_ddny<T,I>::get_wss_tmp_perform()
 {
+    if(!called_setup) eslog::error("setup was not called\n");
+
     return wss_tmp_perform;
 }
 
-- 
2.43.0


From ced2835ee2c61d0d62bbb4dd9fec7ad866909ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:20 +0000
Subject: [PATCH 18/48] fix: gpu trsm chunk allocated the workspace of gemm by
 the size of trsm

---
 .../auxiliary/gpu_trsm_trirhs_chunk_splitfactor.cpp           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gpu/operations/auxiliary/gpu_trsm_trirhs_chunk_splitfactor.cpp b/src/gpu/operations/auxiliary/gpu_trsm_trirhs_chunk_splitfactor.cpp
index ad98c68..fd6daff 100644
--- a/src/gpu/operations/auxiliary/gpu_trsm_trirhs_chunk_splitfactor.cpp
+++ b/src/gpu/operations/auxiliary/gpu_trsm_trirhs_chunk_splitfactor.cpp
@@ -252,7 +252,7 @@ void gpu_trsm_trirhs_chunk_splitfactor<T,I>::preprocess_submit(void * ws_tmp)
 
     if(d_sub_X_bot.nrows > 0) {
         op_gemm.set_ws_persistent(ator_ws_persistent->alloc(op_gemm.get_wss_persistent()));
-        op_gemm.preprocess_submit(ator_ws_tmp_overlap->alloc(op_trsm.get_wss_tmp_preprocess()));
+        op_gemm.preprocess_submit(ator_ws_tmp_overlap->alloc(op_gemm.get_wss_tmp_preprocess()));
     }
 
     ator_ws_tmp_linear->unset();
@@ -287,7 +287,7 @@ void gpu_trsm_trirhs_chunk_splitfactor<T,I>::perform_submit(void * ws_tmp)
     op_trsm.perform_submit(ator_ws_tmp_overlap->alloc(op_trsm.get_wss_tmp_perform()));
 
     if(d_sub_X_bot.nrows > 0) {
-        op_gemm.perform_submit(ator_ws_tmp_overlap->alloc(op_trsm.get_wss_tmp_perform()));
+        op_gemm.perform_submit(ator_ws_tmp_overlap->alloc(op_gemm.get_wss_tmp_perform()));
     }
 
     ator_ws_tmp_linear->unset();
-- 
2.43.0


From f46e483546a8eabee237348bd4d54a0314b49e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:31 +0000
Subject: [PATCH 19/48] fix: linear solvers that are not implemented are
 reported (the run silently solved nothing)

---
 src/analysis/physics/physics.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/analysis/physics/physics.h b/src/analysis/physics/physics.h
index 9ed88c8..5c37643 100644
--- a/src/analysis/physics/physics.h
+++ b/src/analysis/physics/physics.h
@@ -6,6 +6,7 @@
 #include "analysis/linearsystem/fetisolver.h"
 #include "analysis/linearsystem/mklpdsssolver.h"
 #include "analysis/linearsystem/sequentialsolver.h"
+#include "esinfo/eslog.h"
 
 #include "analysis/pattern/pattern.h"
 
@@ -25,12 +26,12 @@ LinearSystemSolver<T>* setSolver(Configuration &configuration)
 {
     switch (configuration.solver) {
     case LoadStepSolverConfiguration::SOLVER::FETI:        return new FETILinearSystemSolver<T>(configuration.feti);
-    case LoadStepSolverConfiguration::SOLVER::HYPRE:       break;
+    case LoadStepSolverConfiguration::SOLVER::HYPRE:       eslog::globalerror("not implemented linear solver: HYPRE.\n");
     case LoadStepSolverConfiguration::SOLVER::MKLPDSS:     return new MKLPDSSLinearSystemSolver<T>(configuration.mklpdss);
-    case LoadStepSolverConfiguration::SOLVER::PARDISO:     break;
-    case LoadStepSolverConfiguration::SOLVER::SUPERLU:     break;
+    case LoadStepSolverConfiguration::SOLVER::PARDISO:     eslog::globalerror("not implemented linear solver: PARDISO.\n");
+    case LoadStepSolverConfiguration::SOLVER::SUPERLU:     eslog::globalerror("not implemented linear solver: SUPERLU.\n");
     case LoadStepSolverConfiguration::SOLVER::SEQUENTIAL:  return new SequentialLinearSystemSolver<T>(configuration.sequential);
-    case LoadStepSolverConfiguration::SOLVER::WSMP:        break;
+    case LoadStepSolverConfiguration::SOLVER::WSMP:        eslog::globalerror("not implemented linear solver: WSMP.\n");
     case LoadStepSolverConfiguration::SOLVER::NONE:        break;
     }
     return new EmptySystemSolver<T>();
-- 
2.43.0


From 49889b38bd68e8bb842c6aa28eea513f243c3a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:31 +0000
Subject: [PATCH 20/48] fix: FETI iterative solvers that are not implemented
 are reported (was null dereference)

---
 src/feti/iterativesolver/iterativesolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/feti/iterativesolver/iterativesolver.cpp b/src/feti/iterativesolver/iterativesolver.cpp
index dd73696..95898a0 100644
--- a/src/feti/iterativesolver/iterativesolver.cpp
+++ b/src/feti/iterativesolver/iterativesolver.cpp
@@ -35,7 +35,7 @@ IterativeSolver<T>* IterativeSolver<T>::create(FETI<T> &feti, const step::Step &
     case FETIConfiguration::ITERATIVE_SOLVER::MPRGP:         return new MPRGP<T>(feti);
     case FETIConfiguration::ITERATIVE_SOLVER::GMRES:
     case FETIConfiguration::ITERATIVE_SOLVER::BICGSTAB:
-    default: return nullptr;
+    default: eslog::globalerror("FETI solver error: not implemented iterative solver.\n");
     }
 }
 
-- 
2.43.0


From 8195ca6bbebc072054e7fe58329e17d7e0c06a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:29 +0000
Subject: [PATCH 21/48] fix: data race of threads summing the domain statistics

---
 src/mesh/mesh.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/mesh.cpp b/src/mesh/mesh.cpp
index 0d7921a..efa4b7f 100644
--- a/src/mesh/mesh.cpp
+++ b/src/mesh/mesh.cpp
@@ -1308,6 +1308,7 @@ void Mesh::printDecompositionStatistics()
                 }
             }
 
+            #pragma omp critical(espreso_mesh_decomposition_statistics)
             for (esint d = 0; d < domains->size; ++d) {
                 dnodes[d] += tdnodes[d];
                 dninterface[d] += tdninterface[d];
-- 
2.43.0


From 6269329054128547884b5cae364a7ffd6e2c3e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:25 +0000
Subject: [PATCH 22/48] fix: debug output of fix points is called once (was a
 collective operation per domain in a parallel region)

---
 .../regularization/regularization.elasticity.cpp  | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/analysis/linearsystem/regularization/regularization.elasticity.cpp b/src/analysis/linearsystem/regularization/regularization.elasticity.cpp
index 7493c0d..86a23c3 100644
--- a/src/analysis/linearsystem/regularization/regularization.elasticity.cpp
+++ b/src/analysis/linearsystem/regularization/regularization.elasticity.cpp
@@ -483,13 +483,6 @@ static void updateRegMat(Matrix_CSR<T> &K, Matrix_CSR<T> &RegMat, DecompositionF
             RegMat.vals[i] = max * NtNNtN.vals[r * NtNNtN.ncols + c];
         }
     }
-
-
-    if (solution) {
-        DebugOutput::fixPoints(fixPoints, solution->cluster.vals);
-    } else {
-        DebugOutput::fixPoints(fixPoints);
-    }
 }
 
 template <typename T>
@@ -611,6 +604,14 @@ void Regularization<T>::update(FETI<T> &feti, StructuralMechanicsLoadStepConfigu
 //            if (feti.updated.K && R1)     updateR1    (feti.K[d], feti.R1[d], feti.decomposition, d, solution); // it is not correct, comment out to fix problem with conjugate projector
             if (feti.updated.K && regMat) updateRegMat(feti.K[d], feti.RegMat[d], feti.decomposition, d, fixPoints[d], fixCols[d], permutation[d], solution);
         }
+        if (feti.updated.K && regMat) {
+            // collective output: one call with fix points of all domains
+            std::vector<esint> points;
+            for (size_t d = 0; d < fixPoints.size(); ++d) {
+                points.insert(points.end(), fixPoints[d].begin(), fixPoints[d].end());
+            }
+            DebugOutput::fixPoints(points, solution ? solution->cluster.vals : nullptr);
+        }
         break;
     case FETIConfiguration::REGULARIZATION::ALGEBRAIC:
         algebraic(feti, 3 * (info::mesh->dimension - 1), feti.configuration.sc_size);
-- 
2.43.0


From e33aeb7d237f30e4c23e185d2c3f61ec3faf04a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:31 +0000
Subject: [PATCH 23/48] fix: VTK header of boundary regions counts nodes of all
 processes

---
 src/output/visualization/vtklegacy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output/visualization/vtklegacy.cpp b/src/output/visualization/vtklegacy.cpp
index 4ba9ee7..a923511 100644
--- a/src/output/visualization/vtklegacy.cpp
+++ b/src/output/visualization/vtklegacy.cpp
@@ -270,8 +270,8 @@ esint VTKLegacy::insertElements(const BoundaryRegionStore *store, const std::vec
     if (store->dimension) {
         esint enodes = 0;
         for (size_t i = 0; i < store->distribution.code.size(); i++) {
-            if (store->distribution.code[i].size) {
-                enodes += store->distribution.code[i].size * Mesh::edata[i].nodes;
+            if (store->distribution.code[i].totalSize) {
+                enodes += store->distribution.code[i].totalSize * Mesh::edata[i].nodes;
             }
         }
 
-- 
2.43.0


From 8963551fb0c95a30be984d9a9d8237e64a4f607f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:31 +0000
Subject: [PATCH 24/48] fix: VTK components are merged one by one

---
 src/output/visualization/vtklegacy.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/output/visualization/vtklegacy.cpp b/src/output/visualization/vtklegacy.cpp
index a923511..a59f4e4 100644
--- a/src/output/visualization/vtklegacy.cpp
+++ b/src/output/visualization/vtklegacy.cpp
@@ -339,6 +339,7 @@ void VTKLegacy::insertData(const step::Step &step, NamedData *data, esint nindic
             for (esint n = 0; n < nindices; ++n) {
                 _writer.float32ln(data->store[indices[n] * data->dimension + d]);
             }
+            _writer.groupData();
         }
     }
 
@@ -351,6 +352,7 @@ void VTKLegacy::insertData(const step::Step &step, NamedData *data, esint nindic
             for (esint n = 0; n < nindices; ++n) {
                 _writer.float32ln(data->store[indices[n] * data->dimension + d]);
             }
+            _writer.groupData();
         }
     }
 
@@ -363,6 +365,7 @@ void VTKLegacy::insertData(const step::Step &step, NamedData *data, esint nindic
             _writer.float32s (data->dimension > 1 ? data->store[indices[n] * data->dimension + 1] : .0);
             _writer.float32ln(data->dimension > 2 ? data->store[indices[n] * data->dimension + 2] : .0);
         }
+        _writer.groupData();
     }
 
     if (data->dataType == NamedData::DataType::TENSOR_ASYM) {
@@ -380,6 +383,7 @@ void VTKLegacy::insertData(const step::Step &step, NamedData *data, esint nindic
             _writer.float32s (data->store[indices[n] * data->dimension + 4]);
             _writer.float32ln(data->store[indices[n] * data->dimension + 2]);
         }
+        _writer.groupData();
     }
 
     if (data->dataType == NamedData::DataType::TENSOR_SYMM) {
@@ -397,8 +401,8 @@ void VTKLegacy::insertData(const step::Step &step, NamedData *data, esint nindic
             _writer.float32s (data->store[indices[n] * data->dimension + 7]);
             _writer.float32ln(data->store[indices[n] * data->dimension + 2]);
         }
+        _writer.groupData();
     }
-    _writer.groupData();
 }
 
 void VTKLegacy::insertDecomposition(const ElementsRegionStore *store)
-- 
2.43.0


From d56a6c06ebd20eb060268003eb6c7b7752c7dafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:31 +0000
Subject: [PATCH 25/48] fix: VTK writer swaps symmetric and asymmetric tensors

---
 src/output/visualization/vtklegacy.cpp | 38 ++++++++++++++++++--------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/output/visualization/vtklegacy.cpp b/src/output/visualization/vtklegacy.cpp
index a59f4e4..a29eb16 100644
--- a/src/output/visualization/vtklegacy.cpp
+++ b/src/output/visualization/vtklegacy.cpp
@@ -368,25 +368,39 @@ void VTKLegacy::insertData(const step::Step &step, NamedData *data, esint nindic
         _writer.groupData();
     }
 
-    if (data->dataType == NamedData::DataType::TENSOR_ASYM) {
+    if (data->dataType == NamedData::DataType::TENSOR_SYMM) {
         if (isRoot()) {
             _writer.data("TENSORS", data->name, "float");
         }
-        for (esint n = 0; n < nindices; ++n) {
-            _writer.float32s (data->store[indices[n] * data->dimension + 0]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 3]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 5]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 3]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 1]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 4]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 5]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 4]);
-            _writer.float32ln(data->store[indices[n] * data->dimension + 2]);
+        if (data->dimension == 3) { // 2D: XX, YY, XY
+            for (esint n = 0; n < nindices; ++n) {
+                _writer.float32s (data->store[indices[n] * data->dimension + 0]);
+                _writer.float32s (data->store[indices[n] * data->dimension + 2]);
+                _writer.float32s (.0);
+                _writer.float32s (data->store[indices[n] * data->dimension + 2]);
+                _writer.float32s (data->store[indices[n] * data->dimension + 1]);
+                _writer.float32s (.0);
+                _writer.float32s (.0);
+                _writer.float32s (.0);
+                _writer.float32ln(.0);
+            }
+        } else {
+            for (esint n = 0; n < nindices; ++n) {
+                _writer.float32s (data->store[indices[n] * data->dimension + 0]);
+                _writer.float32s (data->store[indices[n] * data->dimension + 3]);
+                _writer.float32s (data->store[indices[n] * data->dimension + 5]);
+                _writer.float32s (data->store[indices[n] * data->dimension + 3]);
+                _writer.float32s (data->store[indices[n] * data->dimension + 1]);
+                _writer.float32s (data->store[indices[n] * data->dimension + 4]);
+                _writer.float32s (data->store[indices[n] * data->dimension + 5]);
+                _writer.float32s (data->store[indices[n] * data->dimension + 4]);
+                _writer.float32ln(data->store[indices[n] * data->dimension + 2]);
+            }
         }
         _writer.groupData();
     }
 
-    if (data->dataType == NamedData::DataType::TENSOR_SYMM) {
+    if (data->dataType == NamedData::DataType::TENSOR_ASYM) {
         if (isRoot()) {
             _writer.data("TENSORS", data->name, "float");
         }
-- 
2.43.0


From 80fbe5a2d7f82a6b8c5f599bc38e51f58b05b1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:07 +0000
Subject: [PATCH 26/48] fix: 3D advection stabilization took the x-derivative
 of a wrong node

---
 src/analysis/assembler/heattransfer/op.advection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis/assembler/heattransfer/op.advection.h b/src/analysis/assembler/heattransfer/op.advection.h
index 24d3ec6..f5b9e95 100644
--- a/src/analysis/assembler/heattransfer/op.advection.h
+++ b/src/analysis/assembler/heattransfer/op.advection.h
@@ -101,7 +101,7 @@ template <size_t nodes> struct AdvectionKernel<nodes, 3>: Advection {
         element.conductivity[8] = element.conductivity[8] + stabilization;
 
         for (size_t n = 0; n < nodes; ++n) {
-            SIMD scale = element.det * load1(element.w[gp]) * (load1(element.N[gp][n]) + advection * (ux * element.dND[n * 2 + 0] + uy * element.dND[n * 3 + 1] + uz * element.dND[n * 3 + 2]));
+            SIMD scale = element.det * load1(element.w[gp]) * (load1(element.N[gp][n]) + advection * (ux * element.dND[n * 3 + 0] + uy * element.dND[n * 3 + 1] + uz * element.dND[n * 3 + 2]));
             for (size_t m = 0; m < nodes; ++m) {
                 element.K[n * nodes + m] = element.K[n * nodes + m] + scale * (ux * element.dND[m * 3 + 0] + uy * element.dND[m * 3 + 1] + uz * element.dND[m * 3 + 2]);
             }
-- 
2.43.0


From 322a370e04ae065881e88ef9b2aea9e7809df64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:07 +0000
Subject: [PATCH 27/48] fix: advection stabilization accumulated in a constant
 conductivity

---
 src/analysis/assembler/heattransfer/kernel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis/assembler/heattransfer/kernel.h b/src/analysis/assembler/heattransfer/kernel.h
index 7588d08..8ee2faa 100644
--- a/src/analysis/assembler/heattransfer/kernel.h
+++ b/src/analysis/assembler/heattransfer/kernel.h
@@ -345,7 +345,7 @@ void runElementKernel(const step::Step &step, const HeatTransferElementOperators
                 }
             }
 
-            if (conductivity.isactive) {
+            if (conductivity.isactive || advection.isactive) { // advection adds stabilization to the conductivity
                 conductivity.simd(element, gp);
             }
             if (heatSource.isactive) {
-- 
2.43.0


From 121436e2d115968425d4377c5ccd836f4989e7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:07 +0000
Subject: [PATCH 28/48] fix: thickness stored to nodes before its expression
 was evaluated (heat transfer)

---
 src/analysis/assembler/heattransfer/kernel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis/assembler/heattransfer/kernel.h b/src/analysis/assembler/heattransfer/kernel.h
index 8ee2faa..d0776dc 100644
--- a/src/analysis/assembler/heattransfer/kernel.h
+++ b/src/analysis/assembler/heattransfer/kernel.h
@@ -219,7 +219,6 @@ void setElementKernel(HeatTransferElementOperators &operators, SubKernel::Action
     BaseFunctions<code, gps>::simd(element);
     for (size_t c = 0; c < operators.chunks; ++c) {
         coordinates.simd(element);
-        thickness.simd(element);
 
         for (size_t i = 0; i < nonconst.node.size(); ++i) {
             for (size_t n = 0; n < nodes; ++n) {
@@ -227,6 +226,7 @@ void setElementKernel(HeatTransferElementOperators &operators, SubKernel::Action
             }
         }
 
+        thickness.simd(element);
         temperature.simd(element);
 
         for (size_t gp = 0; gp < gps; ++gp) {
-- 
2.43.0


From d489b063477233c8b81ced5a4123d9c4d0c5a22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:07 +0000
Subject: [PATCH 29/48] fix: gradient and flux of the last chunk overwrote the
 following elements

---
 src/analysis/assembler/heattransfer/op.flux.h     | 4 ++--
 src/analysis/assembler/heattransfer/op.gradient.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/analysis/assembler/heattransfer/op.flux.h b/src/analysis/assembler/heattransfer/op.flux.h
index da8e9eb..1ff5a2a 100644
--- a/src/analysis/assembler/heattransfer/op.flux.h
+++ b/src/analysis/assembler/heattransfer/op.flux.h
@@ -90,7 +90,7 @@ struct TemperatureFluxKernel<nodes, gps, 2>: TemperatureFlux {
         SIMD scale = load1(1. / gps);
         element.flux[0] = element.flux[0] * scale;
         element.flux[1] = element.flux[1] * scale;
-        size_t size = std::min((size_t)SIMD::size, (size_t)(end - flux));
+        size_t size = element.elements;
         double * __restrict__ out = flux;
         for (size_t s = 0; s < size; ++s) {
             out[2 * s + 0] = element.flux[0][s];
@@ -167,7 +167,7 @@ struct TemperatureFluxKernel<nodes, gps, 3>: TemperatureFlux {
         element.flux[0] = element.flux[0] * scale;
         element.flux[1] = element.flux[1] * scale;
         element.flux[2] = element.flux[2] * scale;
-        size_t size = std::min((size_t)SIMD::size, (size_t)(end - flux));
+        size_t size = element.elements;
         double * __restrict__ out = flux;
         for (size_t s = 0; s < size; ++s) {
             out[3 * s + 0] = element.flux[0][s];
diff --git a/src/analysis/assembler/heattransfer/op.gradient.h b/src/analysis/assembler/heattransfer/op.gradient.h
index 720ac4c..de5d395 100644
--- a/src/analysis/assembler/heattransfer/op.gradient.h
+++ b/src/analysis/assembler/heattransfer/op.gradient.h
@@ -49,7 +49,7 @@ struct TemperatureGradientKernel<nodes, gps, 2>: TemperatureGradient {
         SIMD scale = load1(1. / gps);
         element.gradient[0] = element.gradient[0] * scale;
         element.gradient[1] = element.gradient[1] * scale;
-        size_t size = std::min((size_t)SIMD::size, (size_t)(end - gradient));
+        size_t size = element.elements;
         double * __restrict__ out = gradient;
         for (size_t s = 0; s < size; ++s) {
             out[2 * s + 0] = element.gradient[0][s];
@@ -81,7 +81,7 @@ struct TemperatureGradientKernel<nodes, gps, 3>: TemperatureGradient {
         element.gradient[0] = element.gradient[0] * scale;
         element.gradient[1] = element.gradient[1] * scale;
         element.gradient[2] = element.gradient[2] * scale;
-        size_t size = std::min((size_t)SIMD::size, (size_t)(end - gradient));
+        size_t size = element.elements;
         double * __restrict__ out = gradient;
         for (size_t s = 0; s < size; ++s) {
             out[3 * s + 0] = element.gradient[0][s];
-- 
2.43.0


From e0f891855bf8026f38f04baada029e65be999e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:07 +0000
Subject: [PATCH 30/48] fix: heat source, advection and mass of 2D elements
 respect the thickness

---
 src/analysis/assembler/general/op.matrix.mass.h     | 2 +-
 src/analysis/assembler/heattransfer/op.advection.h  | 2 +-
 src/analysis/assembler/heattransfer/op.heatsource.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/analysis/assembler/general/op.matrix.mass.h b/src/analysis/assembler/general/op.matrix.mass.h
index b474a56..93ce8ef 100644
--- a/src/analysis/assembler/general/op.matrix.mass.h
+++ b/src/analysis/assembler/general/op.matrix.mass.h
@@ -32,7 +32,7 @@ struct MatrixMassKernel<nodes, 1>: MatrixMass {
     template <typename Element>
     void simd(Element &element, size_t gp)
     {
-        simd(element, gp, element.det * load1(element.w[gp]) * element.ecf.density);
+        simd(element, gp, element.thickness.gp * element.det * load1(element.w[gp]) * element.ecf.density);
     }
 
     template <typename Element>
diff --git a/src/analysis/assembler/heattransfer/op.advection.h b/src/analysis/assembler/heattransfer/op.advection.h
index f5b9e95..c772803 100644
--- a/src/analysis/assembler/heattransfer/op.advection.h
+++ b/src/analysis/assembler/heattransfer/op.advection.h
@@ -58,7 +58,7 @@ template <size_t nodes> struct AdvectionKernel<nodes, 2>: Advection {
         element.conductivity[3] = element.conductivity[3] + stabilization;
 
         for (size_t n = 0; n < nodes; ++n) {
-            SIMD scale = element.det * load1(element.w[gp]) * (load1(element.N[gp][n]) + advection * (ux * element.dND[n * 2 + 0] + uy * element.dND[n * 2 + 1]));
+            SIMD scale = element.thickness.gp * element.det * load1(element.w[gp]) * (load1(element.N[gp][n]) + advection * (ux * element.dND[n * 2 + 0] + uy * element.dND[n * 2 + 1]));
             for (size_t m = 0; m < nodes; ++m) {
                 element.K[n * nodes + m] = element.K[n * nodes + m] + scale * (ux * element.dND[m * 2 + 0] + uy * element.dND[m * 2 + 1]);
             }
diff --git a/src/analysis/assembler/heattransfer/op.heatsource.h b/src/analysis/assembler/heattransfer/op.heatsource.h
index cf03eb0..50448ab 100644
--- a/src/analysis/assembler/heattransfer/op.heatsource.h
+++ b/src/analysis/assembler/heattransfer/op.heatsource.h
@@ -14,7 +14,7 @@ template <size_t nodes> struct HeatSourceKernel: BoundaryCondition {
     void simd(Element &element, size_t gp)
     {
         for (size_t n = 0; n < nodes; ++n) {
-            element.f[n] = element.f[n] + element.ecf.heatSource * element.det * load1(element.w[gp]) * load1(element.N[gp][n]);
+            element.f[n] = element.f[n] + element.ecf.heatSource * element.thickness.gp * element.det * load1(element.w[gp]) * load1(element.N[gp][n]);
         }
     }
 };
-- 
2.43.0


From 2a99d02e5d855ca0e17a5062ba5c89de5041778b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:38 +0000
Subject: [PATCH 31/48] fix: coefficients depending on coordinates or
 temperature only (no Gauss-point values)

---
 src/analysis/assembler/general/boundarycondition.h    | 4 +++-
 src/analysis/assembler/general/material.h             | 3 +++
 src/analysis/assembler/heattransfer.cpp               | 7 ++++++-
 src/analysis/assembler/heattransfer/op.conductivity.h | 2 ++
 4 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/analysis/assembler/general/boundarycondition.h b/src/analysis/assembler/general/boundarycondition.h
index 54a8e63..132aa08 100644
--- a/src/analysis/assembler/general/boundarycondition.h
+++ b/src/analysis/assembler/general/boundarycondition.h
@@ -37,7 +37,8 @@ struct BoundaryCondition: public SubKernel {
         if (this->expressionVector) {
             this->isconst = expressionVector->x.evaluator->isConst() && expressionVector->y.evaluator->isConst() && expressionVector->z.evaluator->isConst();
             this->isactive = 1;
-            this->needCoordinates = expressionVector->x.evaluator->needCoordinates() && expressionVector->y.evaluator->needCoordinates() && expressionVector->z.evaluator->needCoordinates();
+            this->needCoordinates = expressionVector->x.evaluator->needCoordinates() || expressionVector->y.evaluator->needCoordinates() || expressionVector->z.evaluator->needCoordinates();
+            this->needTemperature = expressionVector->x.evaluator->needTemperature() || expressionVector->y.evaluator->needTemperature() || expressionVector->z.evaluator->needTemperature();
         }
     }
 
@@ -48,6 +49,7 @@ struct BoundaryCondition: public SubKernel {
             this->isconst = expression->evaluator->isConst();
             this->isactive = 1;
             this->needCoordinates = expression->evaluator->needCoordinates();
+            this->needTemperature = expression->evaluator->needTemperature();
         }
     }
 
diff --git a/src/analysis/assembler/general/material.h b/src/analysis/assembler/general/material.h
index 8a4957c..7a870f5 100644
--- a/src/analysis/assembler/general/material.h
+++ b/src/analysis/assembler/general/material.h
@@ -3,6 +3,7 @@
 #define SRC_ANALYSIS_ASSEMBLER_SUBKERNEL_MATERIAL_H_
 
 #include "subkernel.h"
+#include "basis/evaluator/evaluator.h"
 #include "config/ecf/material/material.h"
 
 namespace espreso {
@@ -19,6 +20,8 @@ struct Material: SubKernel {
     void activate(const MaterialConfiguration *configuration)
     {
         this->configuration = configuration;
+        this->needCoordinates = configuration->density.evaluator->needCoordinates() || configuration->heat_capacity.evaluator->needCoordinates();
+        this->needTemperature = configuration->density.evaluator->needTemperature() || configuration->heat_capacity.evaluator->needTemperature();
     }
 
     const MaterialConfiguration *configuration;
diff --git a/src/analysis/assembler/heattransfer.cpp b/src/analysis/assembler/heattransfer.cpp
index 337f96d..41044a0 100644
--- a/src/analysis/assembler/heattransfer.cpp
+++ b/src/analysis/assembler/heattransfer.cpp
@@ -228,7 +228,6 @@ bool HeatTransfer::analyze(const step::Step &step)
 
         const MaterialConfiguration *mat = info::mesh->materials[info::mesh->elements->eintervals[i].material];
         bool cartesian = mat->coordinate_system.type == CoordinateSystemConfiguration::TYPE::CARTESIAN;
-        bool gptemp = mat->thermal_conductivity.needTemperature();
         esint ebegin = info::mesh->elements->eintervals[i].begin, eend = info::mesh->elements->eintervals[i].end;
 
         if (info::mesh->dimension == 2) {
@@ -246,6 +245,12 @@ bool HeatTransfer::analyze(const step::Step &step)
                 elementKernels[i].heatSource.needCoordinates ||
                 elementKernels[i].advection.needCoordinates;
 
+        bool gptemp =
+                elementKernels[i].conductivity.needTemperature ||
+                elementKernels[i].material.needTemperature ||
+                elementKernels[i].heatSource.needTemperature ||
+                elementKernels[i].advection.needTemperature;
+
         elementKernels[i].coordinates.activate(info::mesh->elements->nodes->cbegin() + ebegin, info::mesh->elements->nodes->cbegin() + eend, !cartesian || gpcoo);
 
         auto model = mat->thermal_conductivity.model;
diff --git a/src/analysis/assembler/heattransfer/op.conductivity.h b/src/analysis/assembler/heattransfer/op.conductivity.h
index 744a456..7b504ac 100644
--- a/src/analysis/assembler/heattransfer/op.conductivity.h
+++ b/src/analysis/assembler/heattransfer/op.conductivity.h
@@ -26,6 +26,8 @@ struct Conductivity: SubKernel {
         this->rotated = coordinateSystem->isRotated() && conductivity->model != ThermalConductivityConfiguration::MODEL::ISOTROPIC;
         this->constRotation = coordinateSystem->type == CoordinateSystemConfiguration::TYPE::CARTESIAN && coordinateSystem->isConst();
         this->isactive = !this->isconst || !this->constRotation;
+        this->needCoordinates = conductivity->needCoordinates() || !coordinateSystem->isConst();
+        this->needTemperature = conductivity->needTemperature();
     }
 
     const ThermalConductivityConfiguration *conductivity;
-- 
2.43.0


From 08d9608f1b02bea9d9273dad0a53b81b44e87921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:08 +0000
Subject: [PATCH 32/48] fix: Neo-Hookean material inverts the right
 Cauchy-Green tensor (yz and xz components were swapped)

---
 .../assembler/structuralmechanics/op.material.h        | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/analysis/assembler/structuralmechanics/op.material.h b/src/analysis/assembler/structuralmechanics/op.material.h
index 490e23e..c697331 100644
--- a/src/analysis/assembler/structuralmechanics/op.material.h
+++ b/src/analysis/assembler/structuralmechanics/op.material.h
@@ -365,15 +365,15 @@ template <size_t nodes, size_t gps> struct MaterialStructuralMechanicsKernel<nod
             SIMD lambda = E * nu / ((load1(1.) + nu) * (load1(1.) - load1(2.) * nu));
             SIMD mu = E / (load1(2.) + load1(2.) * nu);
 
-            SIMD J2 = element.C2[0] * element.C2[4] * element.C2[8] + load1(2) * element.C2[1] * element.C2[5] * element.C2[2] - element.C2[0] * element.C2[2] * element.C2[2] - element.C2[4] * element.C2[5] * element.C2[5] - element.C2[8] * element.C2[1] * element.C2[1];
+            SIMD J2 = element.C2[0] * element.C2[4] * element.C2[8] + load1(2) * element.C2[1] * element.C2[5] * element.C2[2] - element.C2[0] * element.C2[5] * element.C2[5] - element.C2[4] * element.C2[2] * element.C2[2] - element.C2[8] * element.C2[1] * element.C2[1];
             SIMD rJ2 = load1(1) / J2;
             SIMD vCinv[6] = {
-                (element.C2[4] *element.C2[8] - element.C2[2] * element.C2[2] ) * rJ2,
-                (element.C2[0] *element.C2[8] - element.C2[5] * element.C2[5] ) * rJ2,
+                (element.C2[4] *element.C2[8] - element.C2[5] * element.C2[5] ) * rJ2,
+                (element.C2[0] *element.C2[8] - element.C2[2] * element.C2[2] ) * rJ2,
                 (element.C2[0] *element.C2[4] - element.C2[1] * element.C2[1] ) * rJ2,
                 (element.C2[5] *element.C2[2] - element.C2[8] * element.C2[1] ) * rJ2,
-                (element.C2[1] *element.C2[2] - element.C2[4] * element.C2[5] ) * rJ2,
-                (element.C2[1] *element.C2[5] - element.C2[0] * element.C2[2] ) * rJ2,
+                (element.C2[1] *element.C2[2] - element.C2[0] * element.C2[5] ) * rJ2,
+                (element.C2[1] *element.C2[5] - element.C2[4] * element.C2[2] ) * rJ2,
             };
 
             SIMD C05 = load1(.5);
-- 
2.43.0


From 532f407e095b837dc364fb6746e2088dd9112f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:34 +0000
Subject: [PATCH 33/48] fix: centrifugal force of an angular velocity that is
 not parallel to an axis

---
 .../structuralmechanics/op.angularvelocity.h         | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/analysis/assembler/structuralmechanics/op.angularvelocity.h b/src/analysis/assembler/structuralmechanics/op.angularvelocity.h
index a306a6b..a77ff8b 100644
--- a/src/analysis/assembler/structuralmechanics/op.angularvelocity.h
+++ b/src/analysis/assembler/structuralmechanics/op.angularvelocity.h
@@ -46,12 +46,12 @@ struct AngularVelocityKernel<nodes, 3>: ElementCondition {
     {
         for (size_t n = 0; n < nodes; ++n) {
             SIMD scale = element.det * load1(element.w[gp]) * element.ecf.density * load1(element.N[gp][n]);
-            SIMD vx = element.ecf.angularVelocity[0] * element.ecf.angularVelocity[0];
-            SIMD vy = element.ecf.angularVelocity[1] * element.ecf.angularVelocity[1];
-            SIMD vz = element.ecf.angularVelocity[2] * element.ecf.angularVelocity[2];
-            element.f[0 * nodes + n] = element.f[0 * nodes + n] + scale * element.coords.gp[0] * (vy + vz);
-            element.f[1 * nodes + n] = element.f[1 * nodes + n] + scale * element.coords.gp[1] * (vx + vz);
-            element.f[2 * nodes + n] = element.f[2 * nodes + n] + scale * element.coords.gp[2] * (vx + vy);
+            // w x (r x w) = r (w . w) - w (w . r)
+            SIMD *w = element.ecf.angularVelocity, *r = element.coords.gp;
+            SIMD vx = w[0] * w[0], vy = w[1] * w[1], vz = w[2] * w[2];
+            element.f[0 * nodes + n] = element.f[0 * nodes + n] + scale * (r[0] * (vy + vz) - w[0] * (w[1] * r[1] + w[2] * r[2]));
+            element.f[1 * nodes + n] = element.f[1 * nodes + n] + scale * (r[1] * (vx + vz) - w[1] * (w[0] * r[0] + w[2] * r[2]));
+            element.f[2 * nodes + n] = element.f[2 * nodes + n] + scale * (r[2] * (vx + vy) - w[2] * (w[0] * r[0] + w[1] * r[1]));
         }
     }
 };
-- 
2.43.0


From 7554b4554797b8781993b04be50feea5f7283d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:55 +0000
Subject: [PATCH 34/48] fix: imaginary part of a harmonic force was replaced by
 zeros (right-hand side of the real part)

---
 src/analysis/assembler/structuralmechanics/kernel.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/analysis/assembler/structuralmechanics/kernel.h b/src/analysis/assembler/structuralmechanics/kernel.h
index 61c63f8..3bf4616 100644
--- a/src/analysis/assembler/structuralmechanics/kernel.h
+++ b/src/analysis/assembler/structuralmechanics/kernel.h
@@ -320,7 +320,7 @@ void runElementKernel(const step::Step &step, StructuralMechanicsElementOperator
     RHSFillerKernel<nodes> outReRHS(operators.reRHSfiller);
     RHSFillerKernel<nodes> outReNRHS(operators.reNRHSfiller);
     RHSFillerKernel<nodes> outImRHS(operators.imRHSfiller);
-    RHSFillerKernel<nodes> outImNRHS(operators.imRHSfiller);
+    RHSFillerKernel<nodes> outImNRHS(operators.imNRHSfiller);
     RHSFillerKernel<nodes> outPostB(operators.postBfiller);
     PrintEigenValuesKernel eigvals(operators.print);
 
@@ -474,7 +474,7 @@ void runElementKernel(const step::Step &step, StructuralMechanicsElementOperator
             outReNRHS.simd(element.nf);
         }
         if (outImRHS.isactive) {
-            outImRHS.simd(element.f);
+            outImRHS.simd(element.imf);
         }
         if (outImNRHS.isactive) {
             outImNRHS.simd(element.nf);
@@ -814,7 +814,7 @@ void runNodeKernel(const StructuralMechanicsNodeOperators &operators, SubKernel:
             outReRHS.simd(element.f);
         }
         if (outImRHS.isactive) {
-            outImRHS.simd(element.f);
+            outImRHS.simd(element.imf);
         }
     }
 }
-- 
2.43.0


From 4abbabf3568efd9e841390573e6bbffd254f1c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:58 +0000
Subject: [PATCH 35/48] fix: thickness stored to nodes before its expression
 was evaluated (structural mechanics)

---
 src/analysis/assembler/structuralmechanics/kernel.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/analysis/assembler/structuralmechanics/kernel.h b/src/analysis/assembler/structuralmechanics/kernel.h
index 3bf4616..9b8328b 100644
--- a/src/analysis/assembler/structuralmechanics/kernel.h
+++ b/src/analysis/assembler/structuralmechanics/kernel.h
@@ -269,7 +269,6 @@ void setElementKernel(StructuralMechanicsElementOperators &operators, SubKernel:
     BaseFunctions<code, gps>::simd(element);
     for (size_t c = 0; c < operators.chunks; ++c) {
         coordinates.simd(element);
-        thickness.simd(element);
 
         for (size_t i = 0; i < nonconst.node.size(); ++i) {
             for (size_t n = 0; n < nodes; ++n) {
@@ -277,6 +276,8 @@ void setElementKernel(StructuralMechanicsElementOperators &operators, SubKernel:
             }
         }
 
+        thickness.simd(element);
+
         if (velocity.isactive) {
             velocity.simd(element);
         }
-- 
2.43.0


From 4fea637c894f1fbf89421cba668db8a7fa8af813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:07 +0000
Subject: [PATCH 36/48] fix: stiffness, mass and pressure of 2D elements
 respect the thickness

---
 src/analysis/assembler/general/op.matrix.mass.h                | 2 +-
 src/analysis/assembler/structuralmechanics.cpp                 | 3 +++
 .../assembler/structuralmechanics/op.matrix.elasticity.h       | 2 +-
 src/analysis/assembler/structuralmechanics/op.normalpressure.h | 2 +-
 src/analysis/assembler/structuralmechanics/op.pressure.h       | 2 +-
 5 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/analysis/assembler/general/op.matrix.mass.h b/src/analysis/assembler/general/op.matrix.mass.h
index 93ce8ef..f6264c1 100644
--- a/src/analysis/assembler/general/op.matrix.mass.h
+++ b/src/analysis/assembler/general/op.matrix.mass.h
@@ -56,7 +56,7 @@ struct MatrixMassKernel<nodes, 2>: MatrixMass {
     template <typename Element>
     void simd(Element &element, size_t gp)
     {
-        SIMD scale = element.det * load1(element.w[gp]) * element.ecf.density;
+        SIMD scale = element.thickness.gp * element.det * load1(element.w[gp]) * element.ecf.density;
         for (size_t n1 = 0, n2 = nodes; n1 < nodes; ++n1, ++n2) {
             element.M[n1 * 2 * nodes + n1] = element.M[n1 * 2 * nodes + n1] + scale * load1(element.N[gp][n1] * element.N[gp][n1]);
             element.M[n2 * 2 * nodes + n2] = element.M[n2 * 2 * nodes + n2] + scale * load1(element.N[gp][n1] * element.N[gp][n1]);
diff --git a/src/analysis/assembler/structuralmechanics.cpp b/src/analysis/assembler/structuralmechanics.cpp
index 3b21810..26d5213 100644
--- a/src/analysis/assembler/structuralmechanics.cpp
+++ b/src/analysis/assembler/structuralmechanics.cpp
@@ -454,6 +454,9 @@ bool StructuralMechanics::analyze(const step::Step &step)
         if (info::mesh->boundaryRegions[r]->dimension) {
             for (size_t i = 0; i < info::mesh->boundaryRegions[r]->eintervals.size(); ++i) {
                 faceKernels[r][i].coordinates.activate(region->elements->cbegin() + region->eintervals[i].begin, region->elements->cbegin() + region->eintervals[i].end, settings.element_behaviour == StructuralMechanicsGlobalSettings::ELEMENT_BEHAVIOUR::AXISYMMETRIC);
+                if (info::mesh->dimension == 2) {
+                    faceKernels[r][i].thickness.activate(region->elements->cbegin() + region->eintervals[i].begin, region->elements->cbegin() + region->eintervals[i].end, Results::thickness->data.data());
+                }
                 faceKernels[r][i].normalPressure.activate(getExpression(region->name, configuration.normal_pressure), settings.element_behaviour);
                 faceKernels[r][i].displacement.activate(region->elements->cbegin() + region->eintervals[i].begin, region->elements->cbegin() + region->eintervals[i].end, Results::displacement->data.data());
                 auto pressure = configuration.pressure.find(region->name);
diff --git a/src/analysis/assembler/structuralmechanics/op.matrix.elasticity.h b/src/analysis/assembler/structuralmechanics/op.matrix.elasticity.h
index 318a712..091fe29 100644
--- a/src/analysis/assembler/structuralmechanics/op.matrix.elasticity.h
+++ b/src/analysis/assembler/structuralmechanics/op.matrix.elasticity.h
@@ -75,7 +75,7 @@ struct MatrixElasticityKernel<nodes, 2>: MatrixElasticity {
                     B[1 * 2 * nodes + 1 * nodes + n] = element.dND[n * 2 + 1];
                     B[2 * 2 * nodes + 0 * nodes + n] = element.dND[n * 2 + 1]; B[2 * 2 * nodes + 1 * nodes + n] = element.dND[n * 2 + 0];
                 }
-                multAtBA<3, 2 * nodes>(element.K, B, element.vC4, element.det * load1(element.w[gp]));
+                multAtBA<3, 2 * nodes>(element.K, B, element.vC4, element.thickness.gp * element.det * load1(element.w[gp]));
             }
             break;
         case StructuralMechanicsGlobalSettings::ELEMENT_BEHAVIOUR::AXISYMMETRIC:
diff --git a/src/analysis/assembler/structuralmechanics/op.normalpressure.h b/src/analysis/assembler/structuralmechanics/op.normalpressure.h
index 2151dab..f380afa 100644
--- a/src/analysis/assembler/structuralmechanics/op.normalpressure.h
+++ b/src/analysis/assembler/structuralmechanics/op.normalpressure.h
@@ -38,7 +38,7 @@ struct NormalPressureKernel<nodes, 2>: NormalPressure {
         case StructuralMechanicsConfiguration::ELEMENT_BEHAVIOUR::PLANE_STRESS:
         case StructuralMechanicsConfiguration::ELEMENT_BEHAVIOUR::PLANE_STRESS_WITH_THICKNESS:
             for (size_t n = 0; n < nodes; ++n) {
-                SIMD pressure = element.det * load1(element.w[gp]) * load1(element.N[gp][n]) * element.ecf.normalPressure;
+                SIMD pressure = element.thickness.gp * element.det * load1(element.w[gp]) * load1(element.N[gp][n]) * element.ecf.normalPressure;
                 element.f[0 * nodes + n] = element.f[0 * nodes + n] + pressure * element.normal[0];
                 element.f[1 * nodes + n] = element.f[1 * nodes + n] + pressure * element.normal[1];
             }
diff --git a/src/analysis/assembler/structuralmechanics/op.pressure.h b/src/analysis/assembler/structuralmechanics/op.pressure.h
index 96c7ca8..5114041 100644
--- a/src/analysis/assembler/structuralmechanics/op.pressure.h
+++ b/src/analysis/assembler/structuralmechanics/op.pressure.h
@@ -44,7 +44,7 @@ struct PressureKernel<nodes, 2>: Pressure {
         case StructuralMechanicsConfiguration::ELEMENT_BEHAVIOUR::PLANE_STRESS:
         case StructuralMechanicsConfiguration::ELEMENT_BEHAVIOUR::PLANE_STRESS_WITH_THICKNESS:
             for (size_t n = 0; n < nodes; ++n) {
-                SIMD pressure = element.det * load1(element.w[gp]) * load1(element.N[gp][n]) * element.ecf.pressure.pressure;
+                SIMD pressure = element.thickness.gp * element.det * load1(element.w[gp]) * load1(element.N[gp][n]) * element.ecf.pressure.pressure;
                 element.f[0 * nodes + n] = element.f[0 * nodes + n] + pressure * element.ecf.pressure.direction[0];
                 element.f[1 * nodes + n] = element.f[1 * nodes + n] + pressure * element.ecf.pressure.direction[1];
             }
-- 
2.43.0


From 852b0f93d5d14a8d60d94cc71836e76b44ac10e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:35 +0000
Subject: [PATCH 37/48] fix: mass matrix of axisymmetric elements integrates
 over the circumference

---
 src/analysis/assembler/general/op.matrix.mass.h    | 14 ++++++++++++--
 .../assembler/structuralmechanics/kernel.h         |  6 +++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/analysis/assembler/general/op.matrix.mass.h b/src/analysis/assembler/general/op.matrix.mass.h
index f6264c1..256d6a0 100644
--- a/src/analysis/assembler/general/op.matrix.mass.h
+++ b/src/analysis/assembler/general/op.matrix.mass.h
@@ -56,7 +56,12 @@ struct MatrixMassKernel<nodes, 2>: MatrixMass {
     template <typename Element>
     void simd(Element &element, size_t gp)
     {
-        SIMD scale = element.thickness.gp * element.det * load1(element.w[gp]) * element.ecf.density;
+        simd(element, gp, element.thickness.gp * element.det * load1(element.w[gp]) * element.ecf.density);
+    }
+
+    template <typename Element>
+    void simd(Element &element, size_t gp, SIMD scale)
+    {
         for (size_t n1 = 0, n2 = nodes; n1 < nodes; ++n1, ++n2) {
             element.M[n1 * 2 * nodes + n1] = element.M[n1 * 2 * nodes + n1] + scale * load1(element.N[gp][n1] * element.N[gp][n1]);
             element.M[n2 * 2 * nodes + n2] = element.M[n2 * 2 * nodes + n2] + scale * load1(element.N[gp][n1] * element.N[gp][n1]);
@@ -78,7 +83,12 @@ struct MatrixMassKernel<nodes, 3>: MatrixMass {
     template <typename Element>
     void simd(Element &element, size_t gp)
     {
-        SIMD scale = element.det * load1(element.w[gp]) * element.ecf.density;
+        simd(element, gp, element.det * load1(element.w[gp]) * element.ecf.density);
+    }
+
+    template <typename Element>
+    void simd(Element &element, size_t gp, SIMD scale)
+    {
         for (size_t n1 = 0, n2 = nodes, n3 = 2 * nodes; n1 < nodes; ++n1, ++n2, ++n3) {
             element.M[n1 * 3 * nodes + n1] = element.M[n1 * 3 * nodes + n1] + scale * load1(element.N[gp][n1] * element.N[gp][n1]);
             element.M[n2 * 3 * nodes + n2] = element.M[n2 * 3 * nodes + n2] + scale * load1(element.N[gp][n1] * element.N[gp][n1]);
diff --git a/src/analysis/assembler/structuralmechanics/kernel.h b/src/analysis/assembler/structuralmechanics/kernel.h
index 9b8328b..8f2ff28 100644
--- a/src/analysis/assembler/structuralmechanics/kernel.h
+++ b/src/analysis/assembler/structuralmechanics/kernel.h
@@ -431,7 +431,11 @@ void runElementKernel(const step::Step &step, StructuralMechanicsElementOperator
                 matrixElasticity.simd(element, gp);
             }
             if (M.isactive) {
-                M.simd(element, gp);
+                if (ndim == 2 && matrixElasticity.behaviour == StructuralMechanicsGlobalSettings::ELEMENT_BEHAVIOUR::AXISYMMETRIC) {
+                    M.simd(element, gp, element.det * load1(element.w[gp]) * load1(2 * M_PI) * element.coords.gp[0] * element.ecf.density);
+                } else {
+                    M.simd(element, gp);
+                }
             }
 //            if (C.isactive) {
 //                C.simd(element, gp);
-- 
2.43.0


From 69b331896d5ca7e5971e3e056a71cc3afcc630ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:18 +0000
Subject: [PATCH 38/48] fix: structural coefficients depending on coordinates
 without Gauss-point coordinates

---
 src/analysis/assembler/structuralmechanics.cpp     | 14 ++++++++++----
 .../assembler/structuralmechanics/op.pressure.h    |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/analysis/assembler/structuralmechanics.cpp b/src/analysis/assembler/structuralmechanics.cpp
index 26d5213..154666d 100644
--- a/src/analysis/assembler/structuralmechanics.cpp
+++ b/src/analysis/assembler/structuralmechanics.cpp
@@ -396,7 +396,12 @@ bool StructuralMechanics::analyze(const step::Step &step)
         BEM[info::mesh->elements->eintervals[i].domain - info::mesh->domains->offset] = isBEM(i);
         const MaterialConfiguration *mat = info::mesh->materials[info::mesh->elements->eintervals[i].material];
         bool cartesian = mat->coordinate_system.type == CoordinateSystemConfiguration::TYPE::CARTESIAN;
+        elementKernels[i].material.activate(mat, settings.element_behaviour, configuration.mode == LoadStepSolverConfiguration::MODE::NONLINEAR && !configuration.corotation);
+        elementKernels[i].acceleration.activate(getExpression(i, configuration.acceleration), settings.element_behaviour);
+        elementKernels[i].angularVelocity.activate(getExpression(i, configuration.angular_velocity), settings.element_behaviour);
+
         bool gpcoo = mat->elasticity_properties.needCoordinates() || getExpression(i, configuration.angular_velocity);
+        gpcoo |= elementKernels[i].material.needCoordinates || elementKernels[i].acceleration.needCoordinates;
         gpcoo |= settings.element_behaviour == StructuralMechanicsGlobalSettings::ELEMENT_BEHAVIOUR::AXISYMMETRIC;
         gpcoo |= mat->coordinate_system.type != CoordinateSystemConfiguration::TYPE::CARTESIAN;
 //        bool gptemp = mat->linear_elastic_properties.needTemperature();
@@ -408,7 +413,6 @@ bool StructuralMechanics::analyze(const step::Step &step)
 
         elementKernels[i].coordinates.activate(info::mesh->elements->nodes->cbegin() + ebegin, info::mesh->elements->nodes->cbegin() + eend, !cartesian || gpcoo);
         elementKernels[i].displacement.activate(info::mesh->elements->nodes->cbegin() + ebegin, info::mesh->elements->nodes->cbegin() + eend, Results::displacement->data.data());
-        elementKernels[i].material.activate(mat, settings.element_behaviour, configuration.mode == LoadStepSolverConfiguration::MODE::NONLINEAR && !configuration.corotation);
 
         elementKernels[i].matrixElasticity.activate(settings.element_behaviour, configuration.mode == LoadStepSolverConfiguration::MODE::NONLINEAR && !configuration.corotation);
         if (configuration.corotation) {
@@ -422,8 +426,6 @@ bool StructuralMechanics::analyze(const step::Step &step)
 //            elementKernels[i].postM.activate();
 //            elementKernels[i].postM.action = SubKernel::SOLUTION;
 //        }
-        elementKernels[i].acceleration.activate(getExpression(i, configuration.acceleration), settings.element_behaviour);
-        elementKernels[i].angularVelocity.activate(getExpression(i, configuration.angular_velocity), settings.element_behaviour);
         if (Results::principalStress) {
             elementKernels[i].displacement.activate(info::mesh->elements->nodes->cbegin() + ebegin, info::mesh->elements->nodes->cbegin() + eend, Results::displacement->data.data());
             elementKernels[i].stress.activate(info::mesh->elements->nodes->cbegin() + ebegin, info::mesh->elements->nodes->cbegin() + eend, i, nodeMultiplicity.data());
@@ -453,7 +455,6 @@ bool StructuralMechanics::analyze(const step::Step &step)
         }
         if (info::mesh->boundaryRegions[r]->dimension) {
             for (size_t i = 0; i < info::mesh->boundaryRegions[r]->eintervals.size(); ++i) {
-                faceKernels[r][i].coordinates.activate(region->elements->cbegin() + region->eintervals[i].begin, region->elements->cbegin() + region->eintervals[i].end, settings.element_behaviour == StructuralMechanicsGlobalSettings::ELEMENT_BEHAVIOUR::AXISYMMETRIC);
                 if (info::mesh->dimension == 2) {
                     faceKernels[r][i].thickness.activate(region->elements->cbegin() + region->eintervals[i].begin, region->elements->cbegin() + region->eintervals[i].end, Results::thickness->data.data());
                 }
@@ -463,6 +464,11 @@ bool StructuralMechanics::analyze(const step::Step &step)
                 if (pressure != configuration.pressure.end()) {
                     faceKernels[r][i].pressure.activate(pressure->second.pressure, pressure->second.direction, settings.element_behaviour);
                 }
+                bool gpcoords =
+                        settings.element_behaviour == StructuralMechanicsGlobalSettings::ELEMENT_BEHAVIOUR::AXISYMMETRIC ||
+                        faceKernels[r][i].normalPressure.needCoordinates ||
+                        faceKernels[r][i].pressure.needCoordinates;
+                faceKernels[r][i].coordinates.activate(region->elements->cbegin() + region->eintervals[i].begin, region->elements->cbegin() + region->eintervals[i].end, gpcoords);
                 if (force) {
                     faceKernels[r][i].force.activate(force->data.data(), region->eintervals[i].begin, region->eintervals[i].end);
                 }
diff --git a/src/analysis/assembler/structuralmechanics/op.pressure.h b/src/analysis/assembler/structuralmechanics/op.pressure.h
index 5114041..43bbe71 100644
--- a/src/analysis/assembler/structuralmechanics/op.pressure.h
+++ b/src/analysis/assembler/structuralmechanics/op.pressure.h
@@ -24,7 +24,7 @@ struct Pressure: public SubKernel {
         this->direction.activate(&direction);
         this->isconst = this->pressure.isconst && this->direction.isconst;
         this->isactive = 1;
-        this->needCoordinates = this->pressure.needCoordinates && this->direction.needCoordinates;
+        this->needCoordinates = this->pressure.needCoordinates || this->direction.needCoordinates;
     }
 
     StructuralMechanicsGlobalSettings::ELEMENT_BEHAVIOUR behaviour;
-- 
2.43.0


From 6d415e819c50f6a72e93f1f16dc08905f184e6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:01 +0000
Subject: [PATCH 39/48] fix: threads sum the averages of stress in nodes of
 more domains atomically

---
 .../assembler/structuralmechanics/op.stress.h | 32 +++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/analysis/assembler/structuralmechanics/op.stress.h b/src/analysis/assembler/structuralmechanics/op.stress.h
index 3b52c7f..edd7fa8 100644
--- a/src/analysis/assembler/structuralmechanics/op.stress.h
+++ b/src/analysis/assembler/structuralmechanics/op.stress.h
@@ -128,18 +128,30 @@ struct StressKernel<nodes, gps, 2>: Stress {
         for (int e = 0; e < element.elements; ++e, ++enodes) {
             size_t node = enodes->at(index);
             double scale = multiplicity[node];
+            #pragma omp atomic
             principalStressAvg[2 * node + 0] += scale * eigS[0][e];
+            #pragma omp atomic
             principalStressAvg[2 * node + 1] += scale * eigS[1][e];
+            #pragma omp atomic
             componentStressAvg[3 * node + 0] += scale * S[0][e];
+            #pragma omp atomic
             componentStressAvg[3 * node + 1] += scale * S[3][e];
+            #pragma omp atomic
             componentStressAvg[3 * node + 2] += scale * S[1][e];
+            #pragma omp atomic
             vonMisesStressAvg [    node    ] += scale * sqrt(.5 * ((eigS[0][e] - eigS[1][e]) * (eigS[0][e] - eigS[1][e])));
 
+            #pragma omp atomic
             principalStrainAvg[2 * node + 0] += scale * eigE[0][e];
+            #pragma omp atomic
             principalStrainAvg[2 * node + 1] += scale * eigE[1][e];
+            #pragma omp atomic
             componentStrainAvg[3 * node + 0] += scale * E[0][e];
+            #pragma omp atomic
             componentStrainAvg[3 * node + 1] += scale * E[3][e];
+            #pragma omp atomic
             componentStrainAvg[3 * node + 2] += scale * E[1][e];
+            #pragma omp atomic
             vonMisesStrainAvg [    node    ] += scale * sqrt(.5 * ((eigE[0][e] - eigE[1][e]) * (eigE[0][e] - eigE[1][e]))) / (1 + nu[e]);
         }
     }
@@ -265,26 +277,46 @@ struct StressKernel<nodes, gps, 3>: Stress {
         for (int e = 0; e < element.elements; ++e, ++enodes) {
             size_t node = enodes->at(index);
             double scale = multiplicity[node];
+            #pragma omp atomic
             principalStressAvg[3 * node + 0] += scale * eigS[0][e];
+            #pragma omp atomic
             principalStressAvg[3 * node + 1] += scale * eigS[1][e];
+            #pragma omp atomic
             principalStressAvg[3 * node + 2] += scale * eigS[2][e];
+            #pragma omp atomic
             componentStressAvg[6 * node + 0] += scale * S[0][e];
+            #pragma omp atomic
             componentStressAvg[6 * node + 1] += scale * S[4][e];
+            #pragma omp atomic
             componentStressAvg[6 * node + 2] += scale * S[8][e];
+            #pragma omp atomic
             componentStressAvg[6 * node + 3] += scale * S[1][e];
+            #pragma omp atomic
             componentStressAvg[6 * node + 4] += scale * S[5][e];
+            #pragma omp atomic
             componentStressAvg[6 * node + 5] += scale * S[2][e];
+            #pragma omp atomic
             vonMisesStressAvg [    node    ] += scale * sqrt(.5 * ((eigS[0][e] - eigS[1][e]) * (eigS[0][e] - eigS[1][e]) + (eigS[1][e] - eigS[2][e]) * (eigS[1][e] - eigS[2][e]) + (eigS[2][e] - eigS[0][e]) * (eigS[2][e] - eigS[0][e])));
 
+            #pragma omp atomic
             principalStrainAvg[3 * node + 0] += scale * eigE[0][e];
+            #pragma omp atomic
             principalStrainAvg[3 * node + 1] += scale * eigE[1][e];
+            #pragma omp atomic
             principalStrainAvg[3 * node + 2] += scale * eigE[2][e];
+            #pragma omp atomic
             componentStrainAvg[6 * node + 0] += scale * E[0][e];
+            #pragma omp atomic
             componentStrainAvg[6 * node + 1] += scale * E[4][e];
+            #pragma omp atomic
             componentStrainAvg[6 * node + 2] += scale * E[8][e];
+            #pragma omp atomic
             componentStrainAvg[6 * node + 3] += scale * E[1][e];
+            #pragma omp atomic
             componentStrainAvg[6 * node + 4] += scale * E[5][e];
+            #pragma omp atomic
             componentStrainAvg[6 * node + 5] += scale * E[2][e];
+            #pragma omp atomic
             vonMisesStrainAvg [    node    ] += scale * sqrt(.5 * ((eigE[0][e] - eigE[1][e]) * (eigE[0][e] - eigE[1][e]) + (eigE[1][e] - eigE[2][e]) * (eigE[1][e] - eigE[2][e]) + (eigE[2][e] - eigE[0][e]) * (eigE[2][e] - eigE[0][e]))) / (1 + nu[e]);
         }
     }
-- 
2.43.0


From c4c5d47d6b48377a715c0c88ac015eb266b4ee80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:25 +0000
Subject: [PATCH 40/48] fix: history of BONET_WOOD is kept for each interval of
 elements

---
 .../assembler/structuralmechanics.cpp         |  8 +++---
 .../structuralmechanics/op.material.h         | 25 +++++++++++--------
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/analysis/assembler/structuralmechanics.cpp b/src/analysis/assembler/structuralmechanics.cpp
index 154666d..0d52205 100644
--- a/src/analysis/assembler/structuralmechanics.cpp
+++ b/src/analysis/assembler/structuralmechanics.cpp
@@ -55,14 +55,16 @@ NodeData* StructuralMechanics::Results::force = nullptr;
 NodeData* StructuralMechanics::Results::reactionForce = nullptr;
 NodeData* StructuralMechanics::Results::contact_force = nullptr;
 
-std::vector<double> MaterialStructuralMechanics::invCp;
-std::vector<double> MaterialStructuralMechanics::alpha;
+std::vector<std::vector<double> > MaterialStructuralMechanics::invCp;
+std::vector<std::vector<double> > MaterialStructuralMechanics::alpha;
 
 StructuralMechanics::StructuralMechanics(StructuralMechanicsConfiguration &settings, StructuralMechanicsLoadStepConfiguration &configuration)
 : Assembler(settings), settings(settings), configuration(configuration)
 {
     threaded = configuration.solver == StructuralMechanicsLoadStepConfiguration::SOLVER::FETI;
     elementKernels.resize(info::mesh->elements->eintervals.size());
+    MaterialStructuralMechanics::invCp.resize(elementKernels.size());
+    MaterialStructuralMechanics::alpha.resize(elementKernels.size());
     faceKernels.resize(info::mesh->boundaryRegions.size());
     nodeKernels.resize(info::mesh->boundaryRegions.size());
     for (size_t r = 1; r < info::mesh->boundaryRegions.size(); ++r) {
@@ -396,7 +398,7 @@ bool StructuralMechanics::analyze(const step::Step &step)
         BEM[info::mesh->elements->eintervals[i].domain - info::mesh->domains->offset] = isBEM(i);
         const MaterialConfiguration *mat = info::mesh->materials[info::mesh->elements->eintervals[i].material];
         bool cartesian = mat->coordinate_system.type == CoordinateSystemConfiguration::TYPE::CARTESIAN;
-        elementKernels[i].material.activate(mat, settings.element_behaviour, configuration.mode == LoadStepSolverConfiguration::MODE::NONLINEAR && !configuration.corotation);
+        elementKernels[i].material.activate(mat, settings.element_behaviour, configuration.mode == LoadStepSolverConfiguration::MODE::NONLINEAR && !configuration.corotation, i);
         elementKernels[i].acceleration.activate(getExpression(i, configuration.acceleration), settings.element_behaviour);
         elementKernels[i].angularVelocity.activate(getExpression(i, configuration.angular_velocity), settings.element_behaviour);
 
diff --git a/src/analysis/assembler/structuralmechanics/op.material.h b/src/analysis/assembler/structuralmechanics/op.material.h
index c697331..106df05 100644
--- a/src/analysis/assembler/structuralmechanics/op.material.h
+++ b/src/analysis/assembler/structuralmechanics/op.material.h
@@ -19,17 +19,18 @@ struct MaterialStructuralMechanics: Material {
     const char* name() const { return "MaterialStructuralMechanics"; }
 
     MaterialStructuralMechanics()
-    : behaviour(StructuralMechanicsGlobalSettings::ELEMENT_BEHAVIOUR::PLANE_STRAIN), nonlinear(true)
+    : behaviour(StructuralMechanicsGlobalSettings::ELEMENT_BEHAVIOUR::PLANE_STRAIN), nonlinear(true), interval(0)
     {
         isconst = false;
         action = SubKernel::ASSEMBLE | SubKernel::REASSEMBLE | SubKernel::SOLUTION;
     }
 
-    void activate(const MaterialConfiguration *configuration, StructuralMechanicsGlobalSettings::ELEMENT_BEHAVIOUR behaviour, bool nonlinear)
+    void activate(const MaterialConfiguration *configuration, StructuralMechanicsGlobalSettings::ELEMENT_BEHAVIOUR behaviour, bool nonlinear, size_t interval)
     {
         Material::activate(configuration);
         this->behaviour = behaviour;
         this->nonlinear = nonlinear;
+        this->interval = interval;
         this->isconst = false;
         this->isactive = true;
     }
@@ -42,10 +43,10 @@ struct MaterialStructuralMechanics: Material {
         case ElasticityPropertiesConfiguration::MATERIAL_MODEL::NEO_HOOKEAN_CMP:
             break;
         case ElasticityPropertiesConfiguration::MATERIAL_MODEL::BONET_WOOD:
-            if (invCp.empty()) {
-                invCp.resize(chunks * gps * SIMD::size * 6 + SIMD::size);
-                alpha.resize(chunks * gps * SIMD::size * 1 + SIMD::size);
-                double *_invCp = utils::getAligned(SIMD::size, invCp);
+            if (invCp[interval].empty()) {
+                invCp[interval].resize(chunks * gps * SIMD::size * 6 + SIMD::size);
+                alpha[interval].resize(chunks * gps * SIMD::size * 1 + SIMD::size);
+                double *_invCp = utils::getAligned(SIMD::size, invCp[interval]);
                 for (size_t c = 0; c < chunks; ++c) {
                     for (size_t i = 0; i < gps; ++i) {
                         for (size_t s = 0; s < SIMD::size; ++s) { // eye in Voigh notation
@@ -62,8 +63,10 @@ struct MaterialStructuralMechanics: Material {
 
     StructuralMechanicsGlobalSettings::ELEMENT_BEHAVIOUR behaviour;
     bool nonlinear;
+    size_t interval;
 
-    static std::vector<double> invCp, alpha;
+    // history of the material for each interval of elements (kept among load steps)
+    static std::vector<std::vector<double> > invCp, alpha;
 };
 
 template <size_t nodes, size_t gps, size_t ndim> struct MaterialStructuralMechanicsKernel;
@@ -161,8 +164,8 @@ template <size_t nodes, size_t gps> struct MaterialStructuralMechanicsKernel<nod
 template <size_t nodes, size_t gps> struct MaterialStructuralMechanicsKernel<nodes, gps, 3>: MaterialStructuralMechanics {
     MaterialStructuralMechanicsKernel(MaterialStructuralMechanics &base)
     : MaterialStructuralMechanics(base),
-      invCp(base.invCp.data()),
-      alpha(base.alpha.data()),
+      invCp(nullptr),
+      alpha(nullptr),
       save(false)
     {
         switch (configuration->elasticity_properties.material_model) {
@@ -171,8 +174,8 @@ template <size_t nodes, size_t gps> struct MaterialStructuralMechanicsKernel<nod
         case ElasticityPropertiesConfiguration::MATERIAL_MODEL::NEO_HOOKEAN_CMP:
             break;
         case ElasticityPropertiesConfiguration::MATERIAL_MODEL::BONET_WOOD:
-            invCp = utils::getAligned(SIMD::size, base.invCp);
-            alpha = utils::getAligned(SIMD::size, base.alpha);
+            invCp = utils::getAligned(SIMD::size, base.invCp[interval]);
+            alpha = utils::getAligned(SIMD::size, base.alpha[interval]);
             break;
         }
     }
-- 
2.43.0


From 4cbe0e770d64ce7888c7a51d290c74264717d37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:12 +0000
Subject: [PATCH 41/48] fix: mass matrix with density or heat capacity
 depending on time is not constant

---
 src/analysis/assembler/heattransfer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/analysis/assembler/heattransfer.cpp b/src/analysis/assembler/heattransfer.cpp
index 41044a0..06188f6 100644
--- a/src/analysis/assembler/heattransfer.cpp
+++ b/src/analysis/assembler/heattransfer.cpp
@@ -418,6 +418,14 @@ void HeatTransfer::connect(Matrix_Base<double> *K, Matrix_Base<double> *M, Vecto
     }
     if (M) {
         M->constant = true;
+        for (size_t i = 0; i < elementKernels.size(); ++i) {
+            for (size_t e = 0; e < elementKernels[i].expressions.node.size(); ++e) {
+                M->constant &= elementKernels[i].expressions.node[e]->evaluator->isConst();
+            }
+            for (size_t e = 0; e < elementKernels[i].expressions.gp.size(); ++e) {
+                M->constant &= elementKernels[i].expressions.gp[e]->evaluator->isConst();
+            }
+        }
         if (M->constant) { constants += "M "; }
     }
     if (f) {
-- 
2.43.0


From 9c15750280e33f43759720a912b83578d87bbde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:12 +0000
Subject: [PATCH 42/48] fix: harmonic analysis dereferenced the (not allocated)
 displacement

---
 src/analysis/assembler/structuralmechanics.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/analysis/assembler/structuralmechanics.cpp b/src/analysis/assembler/structuralmechanics.cpp
index 0d52205..469681f 100644
--- a/src/analysis/assembler/structuralmechanics.cpp
+++ b/src/analysis/assembler/structuralmechanics.cpp
@@ -414,7 +414,9 @@ bool StructuralMechanics::analyze(const step::Step &step)
         }
 
         elementKernels[i].coordinates.activate(info::mesh->elements->nodes->cbegin() + ebegin, info::mesh->elements->nodes->cbegin() + eend, !cartesian || gpcoo);
-        elementKernels[i].displacement.activate(info::mesh->elements->nodes->cbegin() + ebegin, info::mesh->elements->nodes->cbegin() + eend, Results::displacement->data.data());
+        if (Results::displacement) {
+            elementKernels[i].displacement.activate(info::mesh->elements->nodes->cbegin() + ebegin, info::mesh->elements->nodes->cbegin() + eend, Results::displacement->data.data());
+        }
 
         elementKernels[i].matrixElasticity.activate(settings.element_behaviour, configuration.mode == LoadStepSolverConfiguration::MODE::NONLINEAR && !configuration.corotation);
         if (configuration.corotation) {
@@ -461,7 +463,9 @@ bool StructuralMechanics::analyze(const step::Step &step)
                     faceKernels[r][i].thickness.activate(region->elements->cbegin() + region->eintervals[i].begin, region->elements->cbegin() + region->eintervals[i].end, Results::thickness->data.data());
                 }
                 faceKernels[r][i].normalPressure.activate(getExpression(region->name, configuration.normal_pressure), settings.element_behaviour);
-                faceKernels[r][i].displacement.activate(region->elements->cbegin() + region->eintervals[i].begin, region->elements->cbegin() + region->eintervals[i].end, Results::displacement->data.data());
+                if (Results::displacement) {
+                    faceKernels[r][i].displacement.activate(region->elements->cbegin() + region->eintervals[i].begin, region->elements->cbegin() + region->eintervals[i].end, Results::displacement->data.data());
+                }
                 auto pressure = configuration.pressure.find(region->name);
                 if (pressure != configuration.pressure.end()) {
                     faceKernels[r][i].pressure.activate(pressure->second.pressure, pressure->second.direction, settings.element_behaviour);
-- 
2.43.0


From 1e24a5225aab1d4c21f8034103e0c8040c0aa5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:57 +0000
Subject: [PATCH 43/48] fix: rotation of a coordinate system by an angle that
 is not constant (and zero at the origin) was ignored

---
 src/config/ecf/material/coordinatesystem.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/config/ecf/material/coordinatesystem.cpp b/src/config/ecf/material/coordinatesystem.cpp
index c91beb2..bcd0db4 100644
--- a/src/config/ecf/material/coordinatesystem.cpp
+++ b/src/config/ecf/material/coordinatesystem.cpp
@@ -54,16 +54,22 @@ bool CoordinateSystemConfiguration::isConst() const
     return true;
 }
 
+static bool rotates(const ECFExpression &angle)
+{
+    // the current value of an angle that is not constant says nothing about its values in other points and times
+    return angle.isset && (!angle.evaluator->isConst() || angle.evaluator->evaluate() != 0);
+}
+
 bool CoordinateSystemConfiguration::isRotated() const
 {
     if (type == TYPE::CARTESIAN) {
         switch (info::mesh->dimension) {
-        case 2: return rotation.z.isset && rotation.z.evaluator->evaluate() != 0;
+        case 2: return rotates(rotation.z);
         case 3:
             return
-                (rotation.x.isset && rotation.x.evaluator->evaluate() != 0) |
-                (rotation.y.isset && rotation.y.evaluator->evaluate() != 0) |
-                (rotation.z.isset && rotation.z.evaluator->evaluate() != 0);
+                rotates(rotation.x) ||
+                rotates(rotation.y) ||
+                rotates(rotation.z);
         default: return false;
         }
     }
-- 
2.43.0


From 52d015b83fe6a20962aee086a5066b4b1127ba4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:57 +0000
Subject: [PATCH 44/48] fix: thermal conductivity depending on time only was
 never evaluated

---
 src/analysis/assembler/heattransfer/op.conductivity.h |  2 +-
 src/config/ecf/material/thermalconductivity.cpp       | 10 ++++++++++
 src/config/ecf/material/thermalconductivity.h         |  1 +
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/analysis/assembler/heattransfer/op.conductivity.h b/src/analysis/assembler/heattransfer/op.conductivity.h
index 7b504ac..58c6820 100644
--- a/src/analysis/assembler/heattransfer/op.conductivity.h
+++ b/src/analysis/assembler/heattransfer/op.conductivity.h
@@ -21,7 +21,7 @@ struct Conductivity: SubKernel {
     {
         this->conductivity = conductivity;
         this->coordinateSystem = coordinateSystem;
-        this->isconst = !(conductivity->needCoordinates() || conductivity->needTemperature()) && coordinateSystem->isConst();
+        this->isconst = conductivity->isConst() && coordinateSystem->isConst();
         this->type = coordinateSystem->type;
         this->rotated = coordinateSystem->isRotated() && conductivity->model != ThermalConductivityConfiguration::MODEL::ISOTROPIC;
         this->constRotation = coordinateSystem->type == CoordinateSystemConfiguration::TYPE::CARTESIAN && coordinateSystem->isConst();
diff --git a/src/config/ecf/material/thermalconductivity.cpp b/src/config/ecf/material/thermalconductivity.cpp
index 9c72b91..7c2b408 100644
--- a/src/config/ecf/material/thermalconductivity.cpp
+++ b/src/config/ecf/material/thermalconductivity.cpp
@@ -73,6 +73,16 @@ espreso::ThermalConductivityConfiguration::ThermalConductivityConfiguration()
             .addconstraint(ECFCondition(model, ECFCondition::EQUALS, MODEL::ANISOTROPIC)));
 }
 
+bool espreso::ThermalConductivityConfiguration::isConst() const
+{
+    for (size_t i = 0; i < values.values.size(); ++i) {
+        if (values.values[i].evaluator && !values.values[i].evaluator->isConst()) {
+            return false;
+        }
+    }
+    return true;
+}
+
 bool espreso::ThermalConductivityConfiguration::needCoordinates() const
 {
     for (size_t i = 0; i < values.values.size(); ++i) {
diff --git a/src/config/ecf/material/thermalconductivity.h b/src/config/ecf/material/thermalconductivity.h
index 50204e6..0f03a45 100644
--- a/src/config/ecf/material/thermalconductivity.h
+++ b/src/config/ecf/material/thermalconductivity.h
@@ -22,6 +22,7 @@ struct ThermalConductivityConfiguration: public ECFDescription {
 
     ThermalConductivityConfiguration();
 
+    bool isConst() const;
     bool needCoordinates() const;
     bool needTemperature() const;
 };
-- 
2.43.0


From 8c38bcbf261d95a0dd1486d7774567edba7cc087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:58 +0000
Subject: [PATCH 45/48] fix: linear transient structural mechanics exchanged
 the Newmark parameters ALPHA and DELTA

---
 .../structuralmechanics.transient.linear.cpp     | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/analysis/physics/structuralmechanics.transient.linear.cpp b/src/analysis/physics/structuralmechanics.transient.linear.cpp
index a219785..74ec7bf 100644
--- a/src/analysis/physics/structuralmechanics.transient.linear.cpp
+++ b/src/analysis/physics/structuralmechanics.transient.linear.cpp
@@ -163,14 +163,14 @@ bool StructuralMechanicsTransientLinear::run(step::Step &step, Physics *prev)
         time.shift = precice.timeStep(time.shift);
         time.current = time.previous + time.shift;
         double newmark[] = {
-            1. / (delta * time.shift * time.shift),
-            alpha / (delta * time.shift),
-            1. / (delta * time.shift),
-            1. / (2 * delta) - 1,
-            alpha / delta - 1,
-            time.shift / 2 * (alpha / delta - 2),
-            time.shift * (1 - alpha),
-            time.shift * alpha
+            1. / (alpha * time.shift * time.shift),
+            delta / (alpha * time.shift),
+            1. / (alpha * time.shift),
+            1. / (2 * alpha) - 1,
+            delta / alpha - 1,
+            time.shift / 2 * (delta / alpha - 2),
+            time.shift * (1 - delta),
+            time.shift * delta
         };
 
         eslog::info(" ============================================================================================= \n");
-- 
2.43.0


From 5734142df27dab233eb3e21e4676e0d84daed6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:58 +0000
Subject: [PATCH 46/48] fix: damping terms of the nonlinear transient solver
 used the time step instead of DELTA

---
 .../physics/structuralmechanics.transient.nonlinear.cpp     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/analysis/physics/structuralmechanics.transient.nonlinear.cpp b/src/analysis/physics/structuralmechanics.transient.nonlinear.cpp
index 12d8161..d597904 100644
--- a/src/analysis/physics/structuralmechanics.transient.nonlinear.cpp
+++ b/src/analysis/physics/structuralmechanics.transient.nonlinear.cpp
@@ -227,11 +227,11 @@ bool StructuralMechanicsTransientNonLinear::run(step::Step &step, Physics *prev)
         eslog::info(" ============================================================================================= \n");
 
         double a0 = (1. - alphaM) / (alpha * time.shift * time.shift);
-        double a1 = ((1 - alphaF) * time.shift) / (alpha * time.shift);
+        double a1 = ((1 - alphaF) * delta) / (alpha * time.shift);
         double a2 = a0 * time.shift;
         double a3 = (1 - alphaM) / (2 * alpha) - 1;
-        double a4 = ((1 - alphaF) * time.shift) / alpha - 1;
-        double a5 = (1 - alphaF) * (time.shift / (2 * alpha) - 1) * time.shift;
+        double a4 = ((1 - alphaF) * delta) / alpha - 1;
+        double a5 = (1 - alphaF) * (delta / (2 * alpha) - 1) * time.shift;
 
         if (precice.requiresWritingCheckpoint()) {
             // previous data are stored in *_old
-- 
2.43.0


From 618d7f090534d87b8615ef5241afccbe89a81af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:58 +0000
Subject: [PATCH 47/48] fix: sign in the acceleration of the predictor of the
 nonlinear transient solver

---
 .../physics/structuralmechanics.transient.nonlinear.cpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis/physics/structuralmechanics.transient.nonlinear.cpp b/src/analysis/physics/structuralmechanics.transient.nonlinear.cpp
index d597904..b4af561 100644
--- a/src/analysis/physics/structuralmechanics.transient.nonlinear.cpp
+++ b/src/analysis/physics/structuralmechanics.transient.nonlinear.cpp
@@ -269,7 +269,7 @@ bool StructuralMechanicsTransientNonLinear::run(step::Step &step, Physics *prev)
         A->set(0);
         A->add(1. / (alpha * time.shift * time.shift), dU);
         A->add(-1. / (alpha * time.shift), V_old);
-        A->add(-1. / (2 * alpha) - 1, A_old);
+        A->add(-1. / (2 * alpha) + 1, A_old);
         R_old->copy(R);
 
         assembler.updateSolution(step, U);
-- 
2.43.0


From adfe6275f475d1fa685b1cadae89fb5227183494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:58 +0000
Subject: [PATCH 48/48] fix: velocity and acceleration of the transient solvers
 were stored one step late

---
 .../structuralmechanics.transient.linear.cpp        |  3 +--
 .../structuralmechanics.transient.nonlinear.cpp     | 13 ++++++-------
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/analysis/physics/structuralmechanics.transient.linear.cpp b/src/analysis/physics/structuralmechanics.transient.linear.cpp
index 74ec7bf..9504aba 100644
--- a/src/analysis/physics/structuralmechanics.transient.linear.cpp
+++ b/src/analysis/physics/structuralmechanics.transient.linear.cpp
@@ -228,8 +228,6 @@ bool StructuralMechanicsTransientLinear::run(step::Step &step, Physics *prev)
             eslog::checkpointln("SIMULATION: SOLUTION RESTARTED");
             time.current = time.previous;
         } else {
-            info::mesh->output->updateSolution(step, time);
-
             dU->copy(solver->x);
             dU->add(-1, U);
             U->copy(solver->x);
@@ -243,6 +241,7 @@ bool StructuralMechanicsTransientLinear::run(step::Step &step, Physics *prev)
             if (StructuralMechanics::Results::velocity) {
                 V->storeTo(StructuralMechanics::Results::velocity->data);
             }
+            info::mesh->output->updateSolution(step, time);
 
             eslog::info("       = PROCESS SOLUTION                                                   %8.3f s = \n", eslog::time() - solution);
             eslog::info("       = ----------------------------------------------------------------------------- = \n");
diff --git a/src/analysis/physics/structuralmechanics.transient.nonlinear.cpp b/src/analysis/physics/structuralmechanics.transient.nonlinear.cpp
index b4af561..b3bec12 100644
--- a/src/analysis/physics/structuralmechanics.transient.nonlinear.cpp
+++ b/src/analysis/physics/structuralmechanics.transient.nonlinear.cpp
@@ -340,19 +340,18 @@ bool StructuralMechanicsTransientNonLinear::run(step::Step &step, Physics *prev)
             eslog::checkpointln("SIMULATION: SOLUTION RESTARTED");
             time.current = time.previous;
         } else {
-            info::mesh->output->updateSolution(step, time);
-
-            U_old->copy(U);
-            V_old->copy(V);
-            A_old->copy(A);
-            f_old->copy(f);
-
             if (StructuralMechanics::Results::acceleration) {
                 A->storeTo(StructuralMechanics::Results::acceleration->data);
             }
             if (StructuralMechanics::Results::velocity) {
                 V->storeTo(StructuralMechanics::Results::velocity->data);
             }
+            info::mesh->output->updateSolution(step, time);
+
+            U_old->copy(U);
+            V_old->copy(V);
+            A_old->copy(A);
+            f_old->copy(f);
 
             eslog::info("      = TIME STEP FINISHED ======================================= solved in %8.3f s = \n", eslog::time() - start);
             eslog::info("      =================================================================================== \n\n");
-- 
2.43.0

