From 650dea47b7af1b00196da7cd0510aae08d0344a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 01/50] fix: copying a dist_sparse_matrix keeps its row
 partition

---
 .../include/sparsexx/matrix_types/dist_sparse_matrix.hpp       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp b/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
index a2f8893..33d671c 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
@@ -84,7 +84,8 @@ class dist_sparse_matrix {
   }
 
   dist_sparse_matrix(const dist_sparse_matrix& other)
-      : dist_sparse_matrix(other.comm_, other.global_m_, other.global_n_) {
+      : dist_sparse_matrix(other.comm_, other.global_m_, other.global_n_,
+                           other.dist_row_extents_) {
     if(other.diagonal_tile_) set_diagonal_tile(other.diagonal_tile());
     if(other.off_diagonal_tile_)
       set_off_diagonal_tile(other.off_diagonal_tile());
-- 
2.43.0


From 4f55ca26e36847d69d8bda1f5ec0d16b6890f03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 02/50] fix: make the sparse matrix enable_if traits usable for
 overload selection

write_binary_triplet has overloads for CSR and COO; the traits produced a
hard error instead of a substitution failure, so neither could be called.
---
 .../include/sparsexx/matrix_types/type_traits.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/type_traits.hpp b/src/sparsexx/include/sparsexx/matrix_types/type_traits.hpp
index 14549d0..20ba626 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/type_traits.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/type_traits.hpp
@@ -53,17 +53,14 @@ template <typename SpMatType>
 inline constexpr bool is_coo_matrix_v = is_coo_matrix<SpMatType>::value;
 
 template <typename SpMatType, typename U = void>
-struct enable_if_csr_matrix {
-  using type = std::enable_if_t<is_csr_matrix_v<SpMatType>, U>;
-};
+struct enable_if_csr_matrix
+    : public std::enable_if<is_csr_matrix_v<SpMatType>, U> {};
 template <typename SpMatType, typename U = void>
-struct enable_if_csc_matrix {
-  using type = std::enable_if_t<is_csc_matrix_v<SpMatType>, U>;
-};
+struct enable_if_csc_matrix
+    : public std::enable_if<is_csc_matrix_v<SpMatType>, U> {};
 template <typename SpMatType, typename U = void>
-struct enable_if_coo_matrix {
-  using type = std::enable_if_t<is_coo_matrix_v<SpMatType>, U>;
-};
+struct enable_if_coo_matrix
+    : public std::enable_if<is_coo_matrix_v<SpMatType>, U> {};
 
 template <typename SpMatType, typename U = void>
 using enable_if_csr_matrix_t =
-- 
2.43.0


From e13a72549a6d812386692bf1b7a896a18cf31b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 03/50] fix: detect damaged wavefunction files and failed
 wavefunction writes

The reader ignored stream errors and the number of determinants announced in
the header, so a missing, truncated or unreadable file came back as a shorter
(or altered) wavefunction; the writer ignored stream errors and left an older
file in place for an empty wavefunction.
---
 include/macis/wavefunction_io.hpp | 36 +++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/include/macis/wavefunction_io.hpp b/include/macis/wavefunction_io.hpp
index bc38f7e..33f98bf 100644
--- a/include/macis/wavefunction_io.hpp
+++ b/include/macis/wavefunction_io.hpp
@@ -8,11 +8,13 @@
 
 #pragma once
 #include <bitset>
+#include <cstdlib>
 #include <fstream>
 #include <iomanip>
 #include <iostream>
 #include <macis/sd_operations.hpp>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -43,6 +45,7 @@ void read_wavefunction(std::string fname, std::vector<std::bitset<N>>& states,
   coeffs.clear();
 
   std::ifstream file(fname);
+  if(!file) throw std::runtime_error(fname + " not available");
   std::string line;
 
   size_t nstate, norb, nalpha, nbeta;
@@ -56,20 +59,31 @@ void read_wavefunction(std::string fname, std::vector<std::bitset<N>>& states,
     nalpha = std::stoi(nalpha_);
     nbeta = std::stoi(nbeta_);
   }
-  (void)nstate;
-  (void)norb;
   (void)nalpha;
   (void)nbeta;
 
-  states.reserve(nstate);
-  coeffs.reserve(nstate);
+  // The output arguments are only modified once the whole file has been read
+  std::vector<std::bitset<N>> _states;
+  std::vector<double> _coeffs;
   while(std::getline(file, line)) {
     std::stringstream ss{line};
     std::string c, d;
-    ss >> c >> d;
-    states.emplace_back(from_canonical_string<N>(d));
-    coeffs.emplace_back(std::stod(c));
+    if(!(ss >> c)) continue;  // Blank line
+    char* c_end = nullptr;
+    const double coeff = std::strtod(c.c_str(), &c_end);
+    if(!(ss >> d) or *c_end or d.size() < norb or d.size() > N / 2 or
+       d.find_first_not_of("02ud") != std::string::npos)
+      throw std::runtime_error(fname + " contains an invalid determinant");
+    _states.emplace_back(from_canonical_string<N>(d));
+    _coeffs.emplace_back(coeff);
   }
+  if(file.bad()) throw std::runtime_error(fname + " could not be read");
+  if(_states.size() != nstate)
+    throw std::runtime_error(fname + " does not contain " +
+                             std::to_string(nstate) + " determinants");
+
+  states = std::move(_states);
+  coeffs = std::move(_coeffs);
 }
 
 /**
@@ -98,11 +112,9 @@ void write_wavefunction(std::string fname, size_t norb,
   if(states.size() != coeffs.size())
     throw std::runtime_error("Invalid Wave Function Dimensions");
 
-  if(!states.size()) return;
-
   const auto nstates = states.size();
-  const auto nalpha = (states[0] << N / 2).count();
-  const auto nbeta = (states[0] >> N / 2).count();
+  const auto nalpha = nstates ? (states[0] << N / 2).count() : 0;
+  const auto nbeta = nstates ? (states[0] >> N / 2).count() : 0;
 
   std::ofstream file(fname);
   file << nstates << " " << norb << " " << nalpha << " " << nbeta << std::endl;
@@ -111,6 +123,8 @@ void write_wavefunction(std::string fname, size_t norb,
     file << std::setw(30) << coeffs[i] << " " << to_canonical_string(states[i])
          << " " << std::endl;
   }
+  file.close();
+  if(!file) throw std::runtime_error(fname + " could not be written");
 }
 
 }  // namespace macis
-- 
2.43.0


From b70a6e7fa5f6a87866c76b46e44bb236bfd701f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 04/50] fix: report truncated RDM files and failed RDM writes

---
 src/macis/fcidump.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index bf1d776..1772070 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -226,6 +226,7 @@ void read_rdms_binary(std::string fname, size_t norb, double* ORDM, size_t LDD1,
 
   int _norb_read;
   in_file.read((char*)&_norb_read, sizeof(int));
+  if(!in_file) throw std::runtime_error(fname + " could not be read");
   if(_norb_read != (int)norb)
     throw std::runtime_error("NORB in RDM file doesn't match " +
                              std::to_string(norb) + " " +
@@ -235,6 +236,7 @@ void read_rdms_binary(std::string fname, size_t norb, double* ORDM, size_t LDD1,
 
   // Read 1RDM
   in_file.read((char*)raw.data(), norb * norb * sizeof(double));
+  if(!in_file) throw std::runtime_error(fname + " could not be read");
   for(size_t i = 0; i < norb; ++i)
     for(size_t j = 0; j < norb; ++j) {
       ORDM[i + j * LDD1] = raw[i + j * norb];
@@ -242,6 +244,7 @@ void read_rdms_binary(std::string fname, size_t norb, double* ORDM, size_t LDD1,
 
   // Read 2RDM
   in_file.read((char*)raw.data(), norb * norb * norb * norb * sizeof(double));
+  if(!in_file) throw std::runtime_error(fname + " could not be read");
   for(size_t i = 0; i < norb; ++i)
     for(size_t j = 0; j < norb; ++j)
       for(size_t k = 0; k < norb; ++k)
@@ -277,6 +280,8 @@ void write_rdms_binary(std::string fname, size_t norb, const double* ORDM,
               TRDM[i + j * LDD2 + k * LDD2 * LDD2 + l * LDD2 * LDD2 * LDD2];
         }
   out_file.write((char*)raw.data(), norb * norb * norb * norb * sizeof(double));
+  out_file.close();
+  if(!out_file) throw std::runtime_error(fname + " could not be written");
 }
 
 }  // namespace macis
-- 
2.43.0


From 41d9cfade52a14c18f879c211b8799834a8c3b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 05/50] fix: expand a stored triangle whose diagonal has gaps

expand_from_triangle assumed a full diagonal when computing the new number of
entries, and mirrored the entries of rectangular matrices out of range.
---
 .../include/sparsexx/matrix_types/coo_matrix_ops.hpp        | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp b/src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp
index c6a2c7f..5bc76f0 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp
@@ -73,6 +73,7 @@ void coo_matrix<T, index_t, Alloc>::sort_by_row_index() {
 template <typename T, typename index_t, typename Alloc>
 void coo_matrix<T, index_t, Alloc>::expand_from_triangle() {
   std::cout << "Expanding Triangle" << std::endl;
+  if(m_ != n_) return;  // Not a triangle of a symmetric matrix
 
 #if SPARSEXX_ENABLE_RANGES_V3
 
@@ -111,7 +112,10 @@ void coo_matrix<T, index_t, Alloc>::expand_from_triangle() {
   if(diagonal or full_matrix) return;
 
   std::cout << "Performing Expansion..." << std::endl;
-  size_t new_nnz = 2 * nnz_ - n_;
+  size_t n_diag = 0;
+  for(size_t i = 0; i < nnz_; ++i)
+    if(rowind_[i] == colind_[i]) n_diag++;
+  size_t new_nnz = 2 * nnz_ - n_diag;
   rowind_.reserve(new_nnz);
   colind_.reserve(new_nnz);
   nzval_.reserve(new_nnz);
-- 
2.43.0


From 805aa59b3f7e6badc1f38438f9314bcf44cc415d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 06/50] fix: report truncated binary triplet files and failed
 writes

---
 src/sparsexx/include/sparsexx/io/read_binary_triplets.hpp  | 3 +++
 src/sparsexx/include/sparsexx/io/write_binary_triplets.hpp | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/sparsexx/include/sparsexx/io/read_binary_triplets.hpp b/src/sparsexx/include/sparsexx/io/read_binary_triplets.hpp
index 298e1e0..f32d9d6 100644
--- a/src/sparsexx/include/sparsexx/io/read_binary_triplets.hpp
+++ b/src/sparsexx/include/sparsexx/io/read_binary_triplets.hpp
@@ -25,17 +25,20 @@ detail::enable_if_coo_matrix_t<SpMatType, SpMatType> read_binary_triplet_as_coo(
   using value_t = detail::value_type_t<SpMatType>;
 
   std::ifstream f_in(fname, std::ios::binary);
+  if(!f_in) throw std::runtime_error(fname + " not available");
   size_t nnz;
   index_t m, n;
   f_in.read((char*)&m, sizeof(index_t));
   f_in.read((char*)&n, sizeof(index_t));
   f_in.read((char*)&nnz, sizeof(size_t));
+  if(!f_in) throw std::runtime_error(fname + " could not be read");
 
   std::cout << "Reading bin data" << std::endl;
   SpMatType A(m, n, nnz);
   f_in.read((char*)A.rowind().data(), nnz * sizeof(index_t));
   f_in.read((char*)A.colind().data(), nnz * sizeof(index_t));
   f_in.read((char*)A.nzval().data(), nnz * sizeof(value_t));
+  if(!f_in) throw std::runtime_error(fname + " could not be read");
 
   A.determine_indexing_from_adj();
   A.expand_from_triangle();
diff --git a/src/sparsexx/include/sparsexx/io/write_binary_triplets.hpp b/src/sparsexx/include/sparsexx/io/write_binary_triplets.hpp
index 037d3b6..e4f48cc 100644
--- a/src/sparsexx/include/sparsexx/io/write_binary_triplets.hpp
+++ b/src/sparsexx/include/sparsexx/io/write_binary_triplets.hpp
@@ -35,6 +35,8 @@ detail::enable_if_coo_matrix_t<SpMatType> write_binary_triplet(
   f_out.write((char*)A.rowind().data(), nnz * sizeof(index_t));
   f_out.write((char*)A.colind().data(), nnz * sizeof(index_t));
   f_out.write((char*)A.nzval().data(), nnz * sizeof(value_t));
+  f_out.close();
+  if(!f_out) throw std::runtime_error(fname + " could not be written");
 }
 
 template <typename SpMatType>
@@ -63,6 +65,8 @@ detail::enable_if_csr_matrix_t<SpMatType> write_binary_triplet(
   f_out.write((char*)rowind.data(), nnz * sizeof(index_t));
   f_out.write((char*)A.colind().data(), nnz * sizeof(index_t));
   f_out.write((char*)A.nzval().data(), nnz * sizeof(value_t));
+  f_out.close();
+  if(!f_out) throw std::runtime_error(fname + " could not be written");
 }
 
 }  // namespace sparsexx
-- 
2.43.0


From 539c5db69d87f8c38735c4804045a4eb41dfdded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:46 +0000
Subject: [PATCH 07/50] fix: convert COO matrices with empty rows or columns to
 CSR/CSC

The pointer arrays advanced by one row (column) per change of index, which is
wrong when a row (column) is empty; the column pointer was also closed at the
number of rows.
---
 .../sparsexx/matrix_types/conversions.hpp      | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp b/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp
index 563cdea..7369eff 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp
@@ -76,13 +76,9 @@ csr_matrix<T, index_t, Alloc>::csr_matrix(
 
   // Compute rowptr
   rowptr_.at(0) = other.indexing();
-  auto cur_row = 0;
   for(size_type i = 0; i < nnz_; ++i)
-    if(rowind_coo[i] != (cur_row + indexing_)) {
-      cur_row++;
-      rowptr_.at(cur_row) = i + indexing_;
-    }
-  rowptr_.at(m_) = nnz_ + indexing_;
+    rowptr_.at(rowind_coo[i] - indexing_ + 1)++;
+  for(size_type i = 0; i < m_; ++i) rowptr_[i + 1] += rowptr_[i];
 
   std::copy(colind_coo.begin(), colind_coo.end(), colind_.begin());
   std::copy(nzval_coo.begin(), nzval_coo.end(), nzval_.begin());
@@ -103,13 +99,9 @@ csc_matrix<T, index_t, Alloc>::csc_matrix(
 
   // Compute colptr
   colptr_.at(0) = other.indexing();
-  auto cur_col = 0;
-  for(size_t i = 0; i < nnz_; ++i)
-    if(colind_coo[i] != (cur_col + indexing_)) {
-      cur_col++;
-      colptr_.at(cur_col) = i + indexing_;
-    }
-  colptr_.at(m_) = nnz_ + indexing_;
+  for(size_type i = 0; i < nnz_; ++i)
+    colptr_.at(colind_coo[i] - indexing_ + 1)++;
+  for(size_type j = 0; j < n_; ++j) colptr_[j + 1] += colptr_[j];
 
   std::copy(rowind_coo.begin(), rowind_coo.end(), rowind_.begin());
   std::copy(nzval_coo.begin(), nzval_coo.end(), nzval_.begin());
-- 
2.43.0


From 49297cb995473d77c8e999aab7d7a5904bc6149f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 08/50] fix: bound and check every section of a
 Rutherford-Boeing file

---
 src/sparsexx/include/sparsexx/io/read_rb.hpp  | 86 ++++++++++++-------
 src/sparsexx/include/sparsexx/util/string.hpp | 27 ++++++
 2 files changed, 82 insertions(+), 31 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/io/read_rb.hpp b/src/sparsexx/include/sparsexx/io/read_rb.hpp
index 2eac213..ee506a2 100644
--- a/src/sparsexx/include/sparsexx/io/read_rb.hpp
+++ b/src/sparsexx/include/sparsexx/io/read_rb.hpp
@@ -8,17 +8,45 @@
 
 #pragma once
 
-#include <cassert>
+#include <cstdint>
 #include <fstream>
 #include <sparsexx/matrix_types/type_traits.hpp>
 #include <sparsexx/util/string.hpp>
+#include <stdexcept>
 #include <string>
 
 namespace sparsexx {
 
+namespace detail {
+
+/// Real token of a Rutherford-Boeing file (Fortran 'D' exponents included)
+inline double rb_real(std::string token) {
+  for(auto& c : token)
+    if(c == 'd' or c == 'D') c = 'e';
+  return parse_real(token);
+}
+
+/// Read `count` numbers which start and end on line boundaries
+template <typename Store>
+void read_rb_block(std::istream& f_in, int64_t count, const Store& store) {
+  std::string line;
+  for(int64_t cur = 0; cur < count;) {
+    if(not std::getline(f_in, line))
+      throw std::runtime_error("Truncated Rutherford-Boeing File");
+    for(const auto& t : tokenize(line)) {
+      if(cur == count)
+        throw std::runtime_error("Excess Data in Rutherford-Boeing File");
+      store(cur++, t);
+    }
+  }
+}
+
+}  // namespace detail
+
 template <typename T, typename index_t, typename Alloc>
 csc_matrix<T, index_t, Alloc> read_rb_as_csc(std::string fname) {
   std::ifstream f_in(fname);
+  if(!f_in) throw std::runtime_error("Could Not Open " + fname);
 
   std::string line;
 
@@ -28,52 +56,48 @@ csc_matrix<T, index_t, Alloc> read_rb_as_csc(std::string fname) {
 
   // Get useful meta data
   int64_t m, n, nnz;
-  // bool is_sym;
+  bool is_pattern;
   {
     std::getline(f_in, line);
     auto tokens = tokenize(line);
-    assert(tokens.size() == 5);
+    if(tokens.size() != 5)
+      throw std::runtime_error("Bad Rutherford-Boeing Header");
 
     auto type = tokens[0];
-    m = std::stoll(tokens[1]);
-    n = std::stoll(tokens[2]);
-    nnz = std::stoll(tokens[3]);
+    m = parse_integer(tokens[1]);
+    n = parse_integer(tokens[2]);
+    nnz = parse_integer(tokens[3]);
     // Whats the last one for??
 
-    // is_sym = type[1] == 's' or type[1] == 'S';
-    assert(nnz <= m * n);
+    is_pattern = type[0] == 'p' or type[0] == 'P';
+    if(m < 0 or n < 0 or nnz < 0 or nnz > m * n)
+      throw std::runtime_error("Bad Rutherford-Boeing Header");
   }
 
   // Skip format line
-  std::getline(f_in, line);
+  if(not std::getline(f_in, line))
+    throw std::runtime_error("Truncated Rutherford-Boeing File");
 
   csc_matrix<T, index_t, Alloc> A(m, n, nnz);
 
-  int64_t curcount = 0;
-  while(std::getline(f_in, line)) {
-    auto tokens = tokenize(line);
-    for(const auto& t : tokens) A.colptr()[curcount++] = std::stoi(t);
+  detail::read_rb_block(f_in, n + 1, [&](int64_t i, const std::string& t) {
+    A.colptr()[i] = parse_integer(t);
+  });
 
-    if(curcount == (n + 1)) break;
-  }
-
-  curcount = 0;
-  while(std::getline(f_in, line)) {
-    auto tokens = tokenize(line);
-    for(const auto& t : tokens) A.rowind()[curcount++] = std::stoi(t);
-
-    if(curcount == nnz) break;
-  }
-
-  curcount = 0;
-  while(std::getline(f_in, line)) {
-    auto tokens = tokenize(line);
-    for(const auto& t : tokens) A.nzval()[curcount++] = std::stod(t);
+  detail::read_rb_block(f_in, nnz, [&](int64_t i, const std::string& t) {
+    A.rowind()[i] = parse_integer(t);
+  });
 
-    if(curcount == nnz) break;
-  }
+  // Pattern files carry no values
+  if(not is_pattern)
+    detail::read_rb_block(f_in, nnz, [&](int64_t i, const std::string& t) {
+      A.nzval()[i] = detail::rb_real(t);
+    });
 
-  assert(!std::getline(f_in, line));
+  while(std::getline(f_in, line))
+    if(tokenize(line).size())
+      throw std::runtime_error("Excess Data in Rutherford-Boeing File");
+  if(f_in.bad()) throw std::runtime_error("Error Reading " + fname);
   return A;
 }
 
diff --git a/src/sparsexx/include/sparsexx/util/string.hpp b/src/sparsexx/include/sparsexx/util/string.hpp
index c15fb5b..d0475f9 100644
--- a/src/sparsexx/include/sparsexx/util/string.hpp
+++ b/src/sparsexx/include/sparsexx/util/string.hpp
@@ -10,8 +10,12 @@
 
 #include <algorithm>
 #include <cctype>
+#include <cstdint>
+#include <cstdlib>
 #include <locale>
+#include <stdexcept>
 #include <string>
+#include <vector>
 
 namespace sparsexx {
 
@@ -52,4 +56,27 @@ static inline std::vector<std::string> tokenize(
 
 }  // tokenize
 
+/// Integer from a token, which must hold nothing else
+static inline int64_t parse_integer(const std::string& token) {
+  size_t end = 0;
+  int64_t val = 0;
+  try {
+    val = std::stoll(token, &end);
+  } catch(const std::logic_error&) {
+    end = 0;
+  }
+  if(end == 0 or end != token.size())
+    throw std::runtime_error("Invalid Integer: " + token);
+  return val;
+}
+
+/// Real from a token, which must hold nothing else
+static inline double parse_real(const std::string& token) {
+  char* end = nullptr;
+  const double val = std::strtod(token.c_str(), &end);
+  if(token.empty() or end != token.c_str() + token.size())
+    throw std::runtime_error("Invalid Real: " + token);
+  return val;
+}
+
 }  // namespace sparsexx
-- 
2.43.0


From 9b452ddedeaa23e3dbee25363d3c712e787c8810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 09/50] fix: write matrix-market rows and columns in one base
 and report failed writes

---
 src/sparsexx/include/sparsexx/io/write_mm.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/io/write_mm.hpp b/src/sparsexx/include/sparsexx/io/write_mm.hpp
index c29e7a2..8764780 100644
--- a/src/sparsexx/include/sparsexx/io/write_mm.hpp
+++ b/src/sparsexx/include/sparsexx/io/write_mm.hpp
@@ -72,7 +72,7 @@ void write_mm(std::string fname, const csr_matrix<Args...>& A, bool symm,
   write_mm_header(file, m, n, nnz, symm);
 
   int col_offset = 0;
-  int row_offset = 0;
+  int row_offset = A.indexing();
   if(forced_index >= 0) {
     col_offset = forced_index - A.indexing();
     row_offset = forced_index;
@@ -80,7 +80,8 @@ void write_mm(std::string fname, const csr_matrix<Args...>& A, bool symm,
 
   file << std::setprecision(17);
   write_mm_csr_block(file, A, row_offset, col_offset);
-  file << std::flush;
+  file.close();
+  if(!file) throw std::runtime_error("Error Writing " + fname);
 }
 
 }  // namespace sparsexx
-- 
2.43.0


From ced48eeb7f9750c12eaaf5b1c7b71c467b1bb768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 10/50] fix: reject matrix-market files with missing entries or
 fields

---
 src/sparsexx/include/sparsexx/io/read_mm.hpp | 44 +++++++++++++-------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/io/read_mm.hpp b/src/sparsexx/include/sparsexx/io/read_mm.hpp
index 378411e..2732ebd 100644
--- a/src/sparsexx/include/sparsexx/io/read_mm.hpp
+++ b/src/sparsexx/include/sparsexx/io/read_mm.hpp
@@ -247,21 +247,24 @@ template <typename T, typename index_t, typename Alloc>
 coo_matrix<T, index_t, Alloc> read_mm_as_coo(
     std::string fname, detail::coo_sort_scheme sort_scheme) {
   std::ifstream f_in(fname);
+  if(!f_in) throw std::runtime_error("Could Not Open " + fname);
 
   std::string line;
 
   int64_t m, n, nnz_min;
   bool is_sym = false;
+  bool is_pattern = false;
   {
     std::getline(f_in, line);
     auto tokens = tokenize(line);
 
     // Check if this is actually a MM file...
 
-    if(tokens[0].compare("%%MatrixMarket") or tokens.size() != 5)
+    if(tokens.size() != 5 or tokens[0].compare("%%MatrixMarket"))
       throw std::runtime_error(fname + " is not a MM file");
 
     is_sym = !tokens[4].compare("symmetric");
+    is_pattern = !tokens[3].compare("pattern");
 
     while(std::getline(f_in, line)) {
       if(line[0] != '%') break;
@@ -273,14 +276,14 @@ coo_matrix<T, index_t, Alloc> read_mm_as_coo(
       throw std::runtime_error(
           fname + " contains an invalid spec for problem dimension");
 
-    m = std::stoll(tokens[0]);
-    n = std::stoll(tokens[1]);
-    nnz_min = std::stoll(tokens[2]);
+    m = parse_integer(tokens[0]);
+    n = parse_integer(tokens[1]);
+    nnz_min = parse_integer(tokens[2]);
+    if(m < 0 or n < 0 or nnz_min < 0 or (nnz_min and nnz_min > m * n))
+      throw std::runtime_error(fname + " has invalid dimensions");
 
     if(is_sym and m != n)
       throw std::runtime_error(fname + " symmetric not compatible with M!=N");
-
-    if(is_sym) nnz_min *= 2;
   }
 
 #if 0
@@ -314,35 +317,46 @@ coo_matrix<T, index_t, Alloc> read_mm_as_coo(
 
   std::vector<index_t> rowind, colind;
   std::vector<T> nzval;
-  rowind.reserve(nnz_min);
-  colind.reserve(nnz_min);
-  nzval.reserve(nnz_min);
+  rowind.reserve(is_sym ? 2 * nnz_min : nnz_min);
+  colind.reserve(is_sym ? 2 * nnz_min : nnz_min);
+  nzval.reserve(is_sym ? 2 * nnz_min : nnz_min);
 
-  size_t nnz_true = 0;
+  int64_t n_entries = 0;
   while(std::getline(f_in, line)) {
     auto tokens = tokenize(line);
-    int64_t i = std::stoll(tokens[0]);
-    int64_t j = std::stoll(tokens[1]);
-    T v = (tokens.size() == 3) ? std::stod(tokens[2]) : 1.;
+    if(tokens.empty()) continue;
+    if(tokens.size() != (is_pattern ? 2 : 3))
+      throw std::runtime_error(fname + " contains an invalid entry: " + line);
+    int64_t i = parse_integer(tokens[0]);
+    int64_t j = parse_integer(tokens[1]);
+    T v = is_pattern ? 1. : parse_real(tokens[2]);
 
     rowind.push_back(i);
     colind.push_back(j);
     nzval.push_back(v);
-    nnz_true++;
+    n_entries++;
 
     if(is_sym and i != j) {
       rowind.push_back(j);
       colind.push_back(i);
       nzval.push_back(v);
-      nnz_true++;
     }
   }
+  if(f_in.bad()) throw std::runtime_error("Error Reading " + fname);
+  if(n_entries != nnz_min)
+    throw std::runtime_error(fname + " does not hold the announced entries");
 
   coo_matrix<T, index_t, Alloc> A(m, n, std::move(colind), std::move(rowind),
                                   std::move(nzval));
 #endif
 
   A.determine_indexing_from_adj();
+  for(int64_t k = 0; k < (int64_t)A.nnz(); ++k) {
+    const auto i = A.rowind()[k] - A.indexing();
+    const auto j = A.colind()[k] - A.indexing();
+    if(i < 0 or i >= m or j < 0 or j >= n)
+      throw std::runtime_error(fname + " contains an out-of-range entry");
+  }
   if(sort_scheme == detail::coo_sort_scheme::sort_by_row) {
     A.sort_by_row_index();
     assert(A.is_sorted_by_row_index());
-- 
2.43.0


From 2bed604f1e3d03cd3af636b3ce69227c9e2f001f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 11/50] fix: report a failed write of the parallel
 matrix-market export on all ranks

---
 .../include/sparsexx/io/write_dist_mm.hpp     | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/io/write_dist_mm.hpp b/src/sparsexx/include/sparsexx/io/write_dist_mm.hpp
index bde876a..1aa22a2 100644
--- a/src/sparsexx/include/sparsexx/io/write_dist_mm.hpp
+++ b/src/sparsexx/include/sparsexx/io/write_dist_mm.hpp
@@ -33,9 +33,12 @@ void write_dist_mm(std::string fname, const dist_sparse_matrix<SpMatType>& A,
              A.comm());
 
   // Create the file
+  int success = 1;
   if(!mpi_rank) {
     std::ofstream file(fname);
     write_mm_header(file, m, n, total_nnz_root, false);
+    file.close();
+    success = bool(file);
   }
   MPI_Barrier(A.comm());
 
@@ -46,36 +49,42 @@ void write_dist_mm(std::string fname, const dist_sparse_matrix<SpMatType>& A,
     row_offset = forced_index;
   }
 
-  // Ring execute writes
-  int token = 0;
+  // Ring execute writes, the token tells whether all previous writes succeeded
   if(mpi_rank) {
-    MPI_Recv(&token, 1, MPI_INT, mpi_rank - 1, 0, A.comm(), MPI_STATUS_IGNORE);
+    MPI_Recv(&success, 1, MPI_INT, mpi_rank - 1, 0, A.comm(),
+             MPI_STATUS_IGNORE);
   }
   std::cout << "WRITING FROM RANK " << mpi_rank << std::endl;
 
   // Write Diagonal block
-  {
+  if(success) {
     std::ofstream file(fname, std::ios::app);
     file << std::setprecision(17);
     const auto A_loc = A.diagonal_tile();
     write_mm_csr_block(file, A_loc, A.local_row_start() + row_offset,
                        A.local_row_start() + col_offset);
+    file.close();
+    success = bool(file);
   }
 
   // Write Off-diagonal block
-  if(A.off_diagonal_tile_ptr()) {
+  if(success and A.off_diagonal_tile_ptr()) {
     std::ofstream file(fname, std::ios::app);
     file << std::setprecision(17);
     const auto A_loc = A.off_diagonal_tile();
     write_mm_csr_block(file, A_loc, A.local_row_start() + row_offset,
                        col_offset);
+    file.close();
+    success = bool(file);
   }
 
   if(mpi_rank != mpi_size - 1) {
-    MPI_Send(&token, 1, MPI_INT, mpi_rank + 1, 0, A.comm());
+    MPI_Send(&success, 1, MPI_INT, mpi_rank + 1, 0, A.comm());
   }
 
-  MPI_Barrier(A.comm());
+  // The last rank knows the outcome
+  MPI_Bcast(&success, 1, MPI_INT, mpi_size - 1, A.comm());
+  if(!success) throw std::runtime_error("Error Writing " + fname);
 }
 
 }  // namespace sparsexx
-- 
2.43.0


From 9418691e0ad4055b86686232e069ae9df2a40bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 12/50] fix: FCIDUMP readers report bad files and entries and
 honour leading dimensions

---
 src/macis/fcidump.cxx | 183 ++++++++++++++++++++++++------------------
 1 file changed, 107 insertions(+), 76 deletions(-)

diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index 1772070..a6e2ae3 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -9,9 +9,12 @@
 #include <spdlog/sinks/basic_file_sink.h>
 #include <spdlog/spdlog.h>
 
+#include <cctype>
+#include <cstdlib>
 #include <fstream>
 #include <iomanip>
 #include <iostream>
+#include <limits>
 #include <macis/util/fcidump.hpp>
 #include <regex>
 #include <string>
@@ -33,78 +36,112 @@ bool is_float(const std::string& str) {
                      [](auto c) { return std::isalpha(c) or c == '.'; });
 }
 
+int32_t fcidump_index(const std::string& str) {
+  char* end = nullptr;
+  const long val = std::strtol(str.c_str(), &end, 10);
+  if(end == str.c_str() or *end or val < 0 or
+     val > std::numeric_limits<int32_t>::max())
+    throw std::runtime_error("Invalid Orb Idx");
+  return val;
+}
+
+double fcidump_value(std::string str) {
+  // Fortran double precision exponents
+  for(auto& c : str)
+    if(c == 'd' or c == 'D') c = 'e';
+  char* end = nullptr;
+  const double val = std::strtod(str.c_str(), &end);
+  if(end == str.c_str() or *end)
+    throw std::runtime_error("Invalid FCIDUMP Value");
+  return val;
+}
+
 auto fcidump_line(const std::vector<std::string>& tokens) {
   auto idx_first = is_float(tokens.back());
   auto int_first = is_float(tokens.front());
 
   if(idx_first and int_first) throw std::runtime_error("Invalid FCIDUMP Line");
 
-  int32_t p, q, r, s;
-  double integral;
-
-  if(idx_first) {
-    p = std::stoi(tokens[0]);
-    q = std::stoi(tokens[1]);
-    r = std::stoi(tokens[2]);
-    s = std::stoi(tokens[3]);
-    integral = std::stod(tokens[4]);
-  } else {
-    p = std::stoi(tokens[1]);
-    q = std::stoi(tokens[2]);
-    r = std::stoi(tokens[3]);
-    s = std::stoi(tokens[4]);
-    integral = std::stod(tokens[0]);
-  }
-
-  if(p < 0 or q < 0 or r < 0 or s < 0)
-    throw std::runtime_error("Invalid Orb Idx");
+  const size_t idx_off = idx_first ? 0 : 1;
+  const int32_t p = fcidump_index(tokens[idx_off + 0]);
+  const int32_t q = fcidump_index(tokens[idx_off + 1]);
+  const int32_t r = fcidump_index(tokens[idx_off + 2]);
+  const int32_t s = fcidump_index(tokens[idx_off + 3]);
+  const double integral = fcidump_value(idx_first ? tokens[4] : tokens[0]);
 
   return std::make_tuple(p, q, r, s, integral);
 }
 
-enum LineClassification { Core, OneBody, TwoBody };
+enum LineClassification { Core, OneBody, TwoBody, OrbitalEnergy };
 
 LineClassification line_classification(int p, int q, int r, int s) {
   if(!(p or q or r or s))
     return LineClassification::Core;
   else if(p and q and r and s)
     return LineClassification::TwoBody;
-  else
+  else if(p and q and not(r or s))
     return LineClassification::OneBody;
+  else if(p and not(q or r or s))
+    return LineClassification::OrbitalEnergy;
+  else
+    throw std::runtime_error("Invalid FCIDUMP Line");
 }
 
 namespace macis {
 
-uint32_t read_fcidump_norb(std::string fname) {
+/// Visit every entry of a FCIDUMP file until `op` returns false
+template <typename Op>
+void for_each_fcidump_entry(std::string fname, const Op& op) {
   std::ifstream file(fname);
+  if(!file) throw std::runtime_error(fname + " not available");
   std::string line;
-  int32_t max_idx = 0;
   while(std::getline(file, line)) {
+    while(line.size() and std::isspace((unsigned char)line.back()))
+      line.pop_back();
     auto tokens = split(line, " ");
     if(tokens.size() != 5) continue;  // not a valid FCIDUMP line
 
     auto [p, q, r, s, integral] = fcidump_line(tokens);
-
-    max_idx = std::max(max_idx, std::max(p, std::max(q, std::max(r, s))));
+    auto lc = line_classification(p, q, r, s);
+    if(not op(lc, p, q, r, s, integral)) return;
   }
+  if(file.bad()) throw std::runtime_error(fname + " could not be read");
+}
 
+uint32_t read_fcidump_norb(std::string fname) {
+  int32_t max_idx = 0;
+  for_each_fcidump_entry(
+      fname, [&](auto, int32_t p, int32_t q, int32_t r, int32_t s, double) {
+        max_idx = std::max(max_idx, std::max(p, std::max(q, std::max(r, s))));
+        return true;
+      });
   return max_idx;
 }
 
 double read_fcidump_core(std::string fname) {
-  std::ifstream file(fname);
-  std::string line;
-  while(std::getline(file, line)) {
-    auto tokens = split(line, " ");
-    if(tokens.size() != 5) continue;  // not a valid FCIDUMP line
+  double core = 0.0;
+  for_each_fcidump_entry(
+      fname, [&](auto lc, auto, auto, auto, auto, double integral) {
+        if(lc != LineClassification::Core) return true;
+        core = integral;
+        return false;
+      });
+  return core;
+}
 
-    auto [p, q, r, s, integral] = fcidump_line(tokens);
-    auto lc = line_classification(p, q, r, s);
-    if(lc == LineClassification::Core) {
-      return integral;
+/// Set both triangles of the one body term through `T(p,q)`
+template <typename Elem>
+void read_fcidump_1body_impl(std::string fname, const Elem& T) {
+  for_each_fcidump_entry(fname, [&](auto lc, int32_t p, int32_t q, auto, auto,
+                                    double integral) {
+    if(lc == LineClassification::OneBody) {
+      p--;
+      q--;
+      T(p, q) = integral;
+      T(q, p) = integral;
     }
-  }
-  return 0.0;
+    return true;
+  });
 }
 
 void read_fcidump_1body(std::string fname, col_major_span<double, 2> T) {
@@ -114,47 +151,23 @@ void read_fcidump_1body(std::string fname, col_major_span<double, 2> T) {
   if(T.extent(0) != norb)
     throw std::runtime_error("T is of improper dimension");
 
-  std::ifstream file(fname);
-  std::string line;
-  while(std::getline(file, line)) {
-    auto tokens = split(line, " ");
-    if(tokens.size() != 5) continue;  // not a valid FCIDUMP line
-
-    auto [p, q, r, s, integral] = fcidump_line(tokens);
-    auto lc = line_classification(p, q, r, s);
-    if(lc == LineClassification::OneBody) {
-      p--;
-      q--;
-      T(p, q) = integral;
-      T(q, p) = integral;
-    }
-  }
+  read_fcidump_1body_impl(
+      fname, [&](size_t p, size_t q) -> double& { return T(p, q); });
 }
 
 void read_fcidump_1body(std::string fname, double* T, size_t LDT) {
   auto norb = read_fcidump_norb(fname);
-  col_major_span<double, 2> T_map(T, LDT, norb);
-  read_fcidump_1body(fname, KokkosEx::submdspan(T_map, std::pair{0, norb},
-                                                Kokkos::full_extent));
-}
+  if(LDT < norb) throw std::runtime_error("T is of improper dimension");
 
-void read_fcidump_2body(std::string fname, col_major_span<double, 4> V) {
-  if(V.extent(0) != V.extent(1)) throw std::runtime_error("V must be square");
-  if(V.extent(0) != V.extent(2)) throw std::runtime_error("V must be square");
-  if(V.extent(0) != V.extent(3)) throw std::runtime_error("V must be square");
-
-  auto norb = read_fcidump_norb(fname);
-  if(V.extent(0) != norb)
-    throw std::runtime_error("V is of improper dimension");
-
-  std::ifstream file(fname);
-  std::string line;
-  while(std::getline(file, line)) {
-    auto tokens = split(line, " ");
-    if(tokens.size() != 5) continue;  // not a valid FCIDUMP line
+  read_fcidump_1body_impl(
+      fname, [&](size_t p, size_t q) -> double& { return T[p + q * LDT]; });
+}
 
-    auto [p, q, r, s, integral] = fcidump_line(tokens);
-    auto lc = line_classification(p, q, r, s);
+/// Set all permutations of the two body term through `V(p,q,r,s)`
+template <typename Elem>
+void read_fcidump_2body_impl(std::string fname, const Elem& V) {
+  for_each_fcidump_entry(fname, [&](auto lc, int32_t p, int32_t q, int32_t r,
+                                    int32_t s, double integral) {
     if(lc == LineClassification::TwoBody) {
       p--;
       q--;
@@ -170,15 +183,33 @@ void read_fcidump_2body(std::string fname, col_major_span<double, 4> V) {
       V(r, s, q, p) = integral;  // (rs|qp)
       V(s, r, q, p) = integral;  // (sr|qp)
     }
-  }
+    return true;
+  });
+}
+
+void read_fcidump_2body(std::string fname, col_major_span<double, 4> V) {
+  if(V.extent(0) != V.extent(1)) throw std::runtime_error("V must be square");
+  if(V.extent(0) != V.extent(2)) throw std::runtime_error("V must be square");
+  if(V.extent(0) != V.extent(3)) throw std::runtime_error("V must be square");
+
+  auto norb = read_fcidump_norb(fname);
+  if(V.extent(0) != norb)
+    throw std::runtime_error("V is of improper dimension");
+
+  read_fcidump_2body_impl(
+      fname, [&](size_t p, size_t q, size_t r, size_t s) -> double& {
+        return V(p, q, r, s);
+      });
 }
 
 void read_fcidump_2body(std::string fname, double* V, size_t LDV) {
   auto norb = read_fcidump_norb(fname);
-  col_major_span<double, 4> V_map(V, LDV, LDV, LDV, norb);
-  auto sl = std::pair{0, norb};
-  read_fcidump_2body(
-      fname, KokkosEx::submdspan(V_map, sl, sl, sl, Kokkos::full_extent));
+  if(LDV < norb) throw std::runtime_error("V is of improper dimension");
+
+  read_fcidump_2body_impl(
+      fname, [&](size_t p, size_t q, size_t r, size_t s) -> double& {
+        return V[p + LDV * (q + LDV * (r + LDV * s))];
+      });
 }
 
 void write_fcidump(std::string fname, size_t norb, const double* T, size_t LDT,
-- 
2.43.0


From f33636a127c2ea600e25017176556204cc4ec75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 13/50] fix: write_fcidump replaces the file, completes it and
 reports failures

---
 include/macis/util/fcidump.hpp |  1 +
 src/macis/fcidump.cxx          | 24 ++++++++++++++----------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/include/macis/util/fcidump.hpp b/include/macis/util/fcidump.hpp
index 41bb2a5..f79a408 100644
--- a/include/macis/util/fcidump.hpp
+++ b/include/macis/util/fcidump.hpp
@@ -7,6 +7,7 @@
  */
 
 #pragma once
+#include <cstdint>
 #include <macis/types.hpp>
 #include <string>
 
diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index a6e2ae3..b7f6ccd 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -6,9 +6,6 @@
  * See LICENSE.txt for details
  */
 
-#include <spdlog/sinks/basic_file_sink.h>
-#include <spdlog/spdlog.h>
-
 #include <cctype>
 #include <cstdlib>
 #include <fstream>
@@ -214,27 +211,34 @@ void read_fcidump_2body(std::string fname, double* V, size_t LDV) {
 
 void write_fcidump(std::string fname, size_t norb, const double* T, size_t LDT,
                    const double* V, size_t LDV, double E_core) {
-  auto logger = spdlog::basic_logger_mt("fcidump", fname);
-  logger->set_pattern("%v");
-  const std::string fmt_string = "{:8} {:8} {:8} {:8} {:25.16e}";
+  std::ofstream file(fname);
+  file << std::scientific << std::setprecision(16);
+  auto write_line = [&](size_t i, size_t j, size_t k, size_t l, double val) {
+    file << std::setw(8) << i << " " << std::setw(8) << j << " " << std::setw(8)
+         << k << " " << std::setw(8) << l << " " << std::setw(25) << val
+         << "\n";
+  };
 
   // Write two body
   for(size_t i = 0; i < norb; ++i)
     for(size_t j = 0; j < norb; ++j)
       for(size_t k = 0; k < norb; ++k)
         for(size_t l = 0; l < norb; ++l) {
-          logger->info(fmt_string, i + 1, j + 1, k + 1, l + 1,
-                       V[i + j * LDV + k * LDV * LDV + l * LDV * LDV * LDV]);
+          write_line(i + 1, j + 1, k + 1, l + 1,
+                     V[i + j * LDV + k * LDV * LDV + l * LDV * LDV * LDV]);
         }
 
   // Write one body
   for(size_t i = 0; i < norb; ++i)
     for(size_t j = 0; j < norb; ++j) {
-      logger->info(fmt_string, i + 1, j + 1, 0, 0, T[i + j * LDT]);
+      write_line(i + 1, j + 1, 0, 0, T[i + j * LDT]);
     }
 
   // Write core
-  logger->info(fmt_string, 0, 0, 0, 0, E_core);
+  write_line(0, 0, 0, 0, E_core);
+
+  file.close();
+  if(!file) throw std::runtime_error(fname + " could not be written");
 }
 
 void read_rdms_binary(std::string fname, size_t norb, double* ORDM, size_t LDD1,
-- 
2.43.0


From df8463011d65d2dd52396f54c34bf9795bfc22f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:27 +0000
Subject: [PATCH 14/50] fix: the parallel selected-CI search keeps the best
 candidates when scores tie or are few

---
 include/macis/asci/determinant_search.hpp | 34 +++++++++++++++--------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/include/macis/asci/determinant_search.hpp b/include/macis/asci/determinant_search.hpp
index 7d66813..3a3e6a5 100644
--- a/include/macis/asci/determinant_search.hpp
+++ b/include/macis/asci/determinant_search.hpp
@@ -13,6 +13,7 @@
 
 #include <chrono>
 #include <fstream>
+#include <limits>
 #include <macis/asci/determinant_contributions.hpp>
 #include <macis/asci/determinant_sort.hpp>
 #include <macis/sd_operations.hpp>
@@ -571,10 +572,16 @@ std::vector<wfn_t<N>> asci_search(
       std::transform(asci_pairs.begin(), asci_pairs.end(), scores.begin(),
                      [](const auto& p) { return std::abs(p.rv); });
 
-      // Determine kth-ranked scores
-      auto kth_score =
-          dist_quickselect(scores.begin(), scores.end(), top_k_elements, comm,
-                           std::greater<double>{}, std::equal_to<double>{});
+      // Determine kth-ranked scores. All (strictly positive) scores are kept if
+      // there are not more of them than requested
+      const size_t n_candidates = allreduce(scores.size(), MPI_SUM, comm);
+      double kth_score = 0.0;
+      if(top_k_elements == 0)
+        kth_score = std::numeric_limits<double>::infinity();
+      else if(n_candidates > top_k_elements)
+        kth_score =
+            dist_quickselect(scores.begin(), scores.end(), top_k_elements, comm,
+                             std::greater<double>{}, std::equal_to<double>{});
 
       // Partition local pairs into less / eq batches
       auto [g_begin, e_begin, l_begin, _end] = leg_partition(
@@ -586,11 +593,22 @@ std::vector<wfn_t<N>> asci_search(
       size_t n_greater = std::distance(g_begin, e_begin);
       size_t n_equal = std::distance(e_begin, l_begin);
       size_t n_less = std::distance(l_begin, _end);
+
+      // Edge case where NGEQ > TOPK - keep all of the larger elements and fill
+      // up with equivalent elements in rank order
+      const size_t n_greater_global = allreduce(n_greater, MPI_SUM, comm);
+      std::vector<size_t> equal_sizes, equal_displ;
+      total_gather_and_exclusive_scan(n_equal, equal_sizes, equal_displ, comm);
+      const size_t n_equal_keep = top_k_elements - n_greater_global;
+      const size_t n_equal_prev = equal_displ[world_rank];
+      n_equal = n_equal_prev < n_equal_keep
+                    ? std::min(n_equal, n_equal_keep - n_equal_prev)
+                    : 0;
       const int n_geq_local = n_greater + n_equal;
 
       // Strip bitsrings
       std::vector<wfn_t<N>> keep_strings_local(n_geq_local);
-      std::transform(g_begin, l_begin, keep_strings_local.begin(),
+      std::transform(g_begin, g_begin + n_geq_local, keep_strings_local.begin(),
                      [](const auto& p) { return p.state; });
 
       // Gather global strings
@@ -604,12 +622,6 @@ std::vector<wfn_t<N>> asci_search(
                      keep_strings_global.data(), local_sizes.data(),
                      displ.data(), string_dtype, comm);
 
-      // Edge case where NGEQ > TOPK - erase equivalent elements
-      if(n_geq_global > top_k_elements) {
-        n_geq_global = top_k_elements;
-        keep_strings_global.resize(n_geq_global);
-      }
-
       // Make fake strings
       topk.resize(n_geq_global);
       std::transform(keep_strings_global.begin(), keep_strings_global.end(),
-- 
2.43.0


From 088ed7a3ce62733d5c9c587ed37d667ea020649c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 15/50] fix: the parallel selected-CI search honours
 just_singles

---
 include/macis/asci/determinant_search.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/macis/asci/determinant_search.hpp b/include/macis/asci/determinant_search.hpp
index 3a3e6a5..78fe458 100644
--- a/include/macis/asci/determinant_search.hpp
+++ b/include/macis/asci/determinant_search.hpp
@@ -298,6 +298,7 @@ asci_contrib_container<wfn_t<N>> asci_contributions_constraint(
 
       // AAAA excitations
       for(const auto& bcd : uad[i_alpha].bcd) {
+        if(asci_settings.just_singles) break;
         const auto& beta = bcd.beta_string;
         const auto& coeff = bcd.coeff;
         const auto& h_diag = bcd.h_diag;
@@ -311,6 +312,7 @@ asci_contrib_container<wfn_t<N>> asci_contributions_constraint(
 
       // AABB excitations
       for(const auto& bcd : uad[i_alpha].bcd) {
+        if(asci_settings.just_singles) break;
         const auto& beta = bcd.beta_string;
         const auto& coeff = bcd.coeff;
         const auto& h_diag = bcd.h_diag;
@@ -344,6 +346,7 @@ asci_contrib_container<wfn_t<N>> asci_contributions_constraint(
               h_diag, E_ASCI, ham_gen, asci_pairs);
 
           // BBBB Excitations
+          if(asci_settings.just_singles) continue;
           append_ss_doubles_asci_contributions<N / 2, N / 2>(
               coeff, state, state_beta, occ_beta, vir_beta, occ_alpha,
               eps_beta.data(), G_pqrs, norb, h_el_tol, h_diag, E_ASCI, ham_gen,
-- 
2.43.0


From fe80f0a0236a22bf8cce35c7f42083983940ea6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:56 +0000
Subject: [PATCH 16/50] fix: pruning in the parallel selected-CI search keeps
 the contributions of a constraint together

---
 include/macis/asci/determinant_search.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/macis/asci/determinant_search.hpp b/include/macis/asci/determinant_search.hpp
index 78fe458..3003b05 100644
--- a/include/macis/asci/determinant_search.hpp
+++ b/include/macis/asci/determinant_search.hpp
@@ -357,12 +357,17 @@ asci_contrib_container<wfn_t<N>> asci_contributions_constraint(
 
       // Prune Down Contributions
       if(asci_pairs.size() > asci_settings.pair_size_max) {
-        // Remove small contributions
-        auto it = std::partition(
-            asci_pairs.begin(), asci_pairs.end(), [=](const auto& x) {
-              return std::abs(x.rv) > asci_settings.rv_prune_tol;
-            });
-        asci_pairs.erase(it, asci_pairs.end());
+        // Remove small contributions. Those of previous constraints and of the
+        // current one must remain separate
+        auto keep = [=](const auto& x) {
+          return std::abs(x.rv) > asci_settings.rv_prune_tol;
+        };
+        auto cur_begin = asci_pairs.begin() + size_before;
+        asci_pairs.erase(std::partition(cur_begin, asci_pairs.end(), keep),
+                         asci_pairs.end());
+        auto it = std::partition(asci_pairs.begin(), cur_begin, keep);
+        size_before = std::distance(asci_pairs.begin(), it);
+        asci_pairs.erase(it, cur_begin);
 
         auto c_indices = bits_to_indices(C);
         std::string c_string;
-- 
2.43.0


From 15ee99df8172f5d51aff1a462ed4389c315da456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:17 +0000
Subject: [PATCH 17/50] fix: the parallel selected-CI search covers
 determinants with few alpha electrons

---
 include/macis/asci/mask_constraints.hpp | 28 +++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/macis/asci/mask_constraints.hpp b/include/macis/asci/mask_constraints.hpp
index c9907e0..57de85c 100644
--- a/include/macis/asci/mask_constraints.hpp
+++ b/include/macis/asci/mask_constraints.hpp
@@ -83,8 +83,6 @@ auto generate_constraint_double_excitations(wfn_t<N> det, wfn_t<N> C,
   // Occ/Vir pairs to generate excitations
   std::vector<wfn_t<N>> O, V;
 
-  if((det & C) == 0) return std::make_tuple(O, V);
-
   auto o = det ^ C;
   auto v = (~det) & O_mask & B;
 
@@ -178,8 +176,6 @@ void generate_constraint_doubles(wfn_t<N> det, wfn_t<N> T, wfn_t<N> O_mask,
 template <size_t N>
 unsigned count_constraint_doubles(wfn_t<N> det, wfn_t<N> C, wfn_t<N> O,
                                   wfn_t<N> B) {
-  if((det & C) == 0) return 0;
-
   auto o = det ^ C;
   auto v = (~det) & O & B;
 
@@ -514,6 +510,30 @@ auto dist_constraint_general(size_t nlevels, size_t norb, size_t ns_othr,
         total_work += nw;
       }
 
+  // There are no triplets for less than three alpha electrons: use full strings
+  const size_t n_alpha = unique_alpha.front().count();
+  if(n_alpha < 3) {
+    std::vector<wfn_constraint<N>> strings = {{wfn_t<N>(0), O, unsigned(norb)}};
+    for(size_t i = 0; i < n_alpha; ++i) {
+      std::vector<wfn_constraint<N>> next;
+      for(const auto& c : strings)
+        for(unsigned q_l = 0; q_l < c.C_min; ++q_l)
+          next.push_back({wfn_t<N>(c.C).flip(q_l), c.B >> (c.C_min - q_l), q_l});
+      strings = std::move(next);
+    }
+    for(const auto& c : strings) {
+      size_t nw = 0;
+      for(const auto& alpha : unique_alpha) {
+        nw += constraint_histogram(alpha, ns_othr, nd_othr, c.C, O, c.B);
+      }
+      if(nw) constraint_sizes.emplace_back(c, nw);
+      total_work += nw;
+    }
+  }
+
+  // Full strings cannot be broken apart any further
+  nlevels = std::min(nlevels, n_alpha < 3 ? 0 : n_alpha - 3);
+
   size_t local_average = (0.6 * total_work) / world_size;
 
   for(size_t ilevel = 0; ilevel < nlevels; ++ilevel) {
-- 
2.43.0


From 741914fe619816f5d93923b8fdaa5780df4468ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:52 +0000
Subject: [PATCH 18/50] fix: accept a fully occupied spin in bitset_to_occ_vir

---
 include/macis/sd_operations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/macis/sd_operations.hpp b/include/macis/sd_operations.hpp
index c04267f..06631c6 100644
--- a/include/macis/sd_operations.hpp
+++ b/include/macis/sd_operations.hpp
@@ -83,7 +83,7 @@ void bitset_to_occ_vir(size_t norb, std::bitset<N> state,
                        std::vector<uint32_t>& occ, std::vector<uint32_t>& vir) {
   occ = bits_to_indices(state);
   const auto nocc = occ.size();
-  assert(nocc < norb);
+  assert(nocc <= norb);
 
   const auto nvir = norb - nocc;
   vir.resize(nvir);
-- 
2.43.0


From d789f72df991766f4eceef373ae58b781d48f572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:27 +0000
Subject: [PATCH 19/50] fix: the parallel diagonal guess finds its owner for
 every row partition

---
 include/macis/solvers/davidson.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/macis/solvers/davidson.hpp b/include/macis/solvers/davidson.hpp
index 6375677..dd39cdf 100644
--- a/include/macis/solvers/davidson.hpp
+++ b/include/macis/solvers/davidson.hpp
@@ -100,10 +100,10 @@ void p_diagonal_guess(size_t N_local, const SpMatType& A, double* X) {
   // Zero out guess
   for(size_t i = 0; i < N_local; ++i) X[i] = 0.;
 
-  // Get owner rank
-  int owner_rank = min_idx / remote_counts[0];
-  if(world_rank == owner_rank) {
-    X[min_idx - A.local_row_start()] = 1.;
+  // Set guess on owner rank
+  if(row_starts[world_rank] <= min_idx and
+     min_idx < row_starts[world_rank + 1]) {
+    X[min_idx - row_starts[world_rank]] = 1.;
   }
 }
 #endif
-- 
2.43.0


From aba608b4db47d00583f9954e93d279caa4819ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:27 +0000
Subject: [PATCH 20/50] fix: all ranks take the same decision on the passed
 selected-CI guess

---
 include/macis/solvers/selected_ci_diag.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/macis/solvers/selected_ci_diag.hpp b/include/macis/solvers/selected_ci_diag.hpp
index 0a1e293..ae219ae 100644
--- a/include/macis/solvers/selected_ci_diag.hpp
+++ b/include/macis/solvers/selected_ci_diag.hpp
@@ -38,12 +38,11 @@ double parallel_selected_ci_diag(const SpMatType& H, size_t davidson_max_m,
   auto D_local = extract_diagonal_elements(H.diagonal_tile());
 
   // Setup guess
-  auto max_c = *std::max_element(
-      C_local.begin(), C_local.end(),
-      [](auto a, auto b) { return std::abs(a) < std::abs(b); });
-  max_c = std::abs(max_c);
+  double max_c = 0.;
+  for(auto c : C_local) max_c = std::max(max_c, std::abs(c));
+  max_c = allreduce(max_c, MPI_MAX, comm);
 
-  if(max_c > (1. / C_local.size())) {
+  if(max_c > (1. / H.n())) {
     logger->info("  * Will use passed vector as guess");
   } else {
     logger->info("  * Will generate identity guess");
-- 
2.43.0


From 5abc7a221d0a9e5c38cb8f3e63eaf40da8ece61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 21/50] fix: the parallel Davidson solver works with ranks that
 hold no rows

---
 include/macis/solvers/davidson.hpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/include/macis/solvers/davidson.hpp b/include/macis/solvers/davidson.hpp
index dd39cdf..065f0f1 100644
--- a/include/macis/solvers/davidson.hpp
+++ b/include/macis/solvers/davidson.hpp
@@ -228,9 +228,13 @@ auto davidson(int64_t N, int64_t max_m, const Functor& op, const double* D,
 inline void p_gram_schmidt(int64_t N_local, int64_t K, const double* V_old,
                            int64_t LDV, double* V_new, MPI_Comm comm) {
   std::vector<double> inner(K);
+  // Leading dimensions must be positive, also on ranks without rows
+  const int64_t LD = std::max<int64_t>(1, N_local);
+  LDV = std::max<int64_t>(1, LDV);
+
   // Compute local V_old**H * V_new
   blas::gemm(blas::Layout::ColMajor, blas::Op::ConjTrans, blas::Op::NoTrans, K,
-             1, N_local, 1., V_old, LDV, V_new, N_local, 0., inner.data(), K);
+             1, N_local, 1., V_old, LDV, V_new, LD, 0., inner.data(), K);
 
   // Reduce inner product
   allreduce(inner.data(), K, MPI_SUM, comm);
@@ -238,15 +242,15 @@ inline void p_gram_schmidt(int64_t N_local, int64_t K, const double* V_old,
   // Project locally
   blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
              N_local, 1, K, -1., V_old, LDV, inner.data(), K, 1., V_new,
-             N_local);
+             LD);
 
   // Repeat
   blas::gemm(blas::Layout::ColMajor, blas::Op::ConjTrans, blas::Op::NoTrans, K,
-             1, N_local, 1., V_old, LDV, V_new, N_local, 0., inner.data(), K);
+             1, N_local, 1., V_old, LDV, V_new, LD, 0., inner.data(), K);
   allreduce(inner.data(), K, MPI_SUM, comm);
   blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
              N_local, 1, K, -1., V_old, LDV, inner.data(), K, 1., V_new,
-             N_local);
+             LD);
 
   // Normalize
   double dot = blas::dot(N_local, V_new, 1, V_new, 1);
@@ -261,6 +265,10 @@ inline void p_rayleigh_ritz(int64_t N_local, int64_t K, const double* X,
   int world_rank;
   MPI_Comm_rank(comm, &world_rank);
 
+  // Leading dimensions must be positive, also on ranks without rows
+  LDX = std::max<int64_t>(1, LDX);
+  LDAX = std::max<int64_t>(1, LDAX);
+
   // Compute Local inner product
   blas::gemm(blas::Layout::ColMajor, blas::Op::ConjTrans, blas::Op::NoTrans, K,
              K, N_local, 1., X, LDX, AX, LDAX, 0., C, LDC);
@@ -303,6 +311,9 @@ auto p_davidson(int64_t N_local, int64_t max_m, const Functor& op,
   logger->info("  {} = {:6}, {} = {:4}, {} = {:10.5e}", "N_LOCAL", N_local,
                "MAX_M", max_m, "RES_TOL", tol);
 
+  // Leading dimension must be positive, also on ranks without rows
+  const int64_t LD = std::max<int64_t>(1, N_local);
+
   // Allocations
   std::vector<double> V_local(N_local * (max_m + 1)),
       AV_local(N_local * (max_m + 1)), C((max_m + 1) * (max_m + 1)),
@@ -345,16 +356,16 @@ auto p_davidson(int64_t N_local, int64_t max_m, const Functor& op,
 
     // X = V*C
     blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
-               N_local, 1, k, 1., V_local.data(), N_local, C.data(), k, 0.,
-               X_local, N_local);
+               N_local, 1, k, 1., V_local.data(), LD, C.data(), k, 0., X_local,
+               LD);
 
     // R = X
     std::copy_n(X_local, N_local, R_local);
 
     // R = (AV - LAM[0]*V)*C = AV*C - LAM[0]*X = AV*C - LAM[0]*R
     blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
-               N_local, 1, k, 1., AV_local.data(), N_local, C.data(), k,
-               -LAM[0], R_local, N_local);
+               N_local, 1, k, 1., AV_local.data(), LD, C.data(), k, -LAM[0],
+               R_local, LD);
 
     // Compute residual norm
     auto res_dot = blas::dot(N_local, R_local, 1, R_local, 1);
-- 
2.43.0


From eebe4c085c62bad99e1a5f30928f4afd7227fc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 22/50] fix: bound the subspace of the parallel Davidson solver
 by the matrix order

---
 include/macis/solvers/davidson.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/macis/solvers/davidson.hpp b/include/macis/solvers/davidson.hpp
index 065f0f1..8f0ccaf 100644
--- a/include/macis/solvers/davidson.hpp
+++ b/include/macis/solvers/davidson.hpp
@@ -314,6 +314,10 @@ auto p_davidson(int64_t N_local, int64_t max_m, const Functor& op,
   // Leading dimension must be positive, also on ranks without rows
   const int64_t LD = std::max<int64_t>(1, N_local);
 
+  // The subspace cannot be larger than the problem
+  const int64_t N = allreduce(size_t(N_local), MPI_SUM, comm);
+  max_m = std::min(max_m, N);
+
   // Allocations
   std::vector<double> V_local(N_local * (max_m + 1)),
       AV_local(N_local * (max_m + 1)), C((max_m + 1) * (max_m + 1)),
-- 
2.43.0


From 488a950b3047cfd2934812a367e6d6909cfc0984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:12 +0000
Subject: [PATCH 23/50] fix: normalise the guess passed to the Davidson solvers

---
 include/macis/solvers/davidson.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/macis/solvers/davidson.hpp b/include/macis/solvers/davidson.hpp
index 8f0ccaf..f2e0658 100644
--- a/include/macis/solvers/davidson.hpp
+++ b/include/macis/solvers/davidson.hpp
@@ -146,8 +146,11 @@ auto davidson(int64_t N, int64_t max_m, const Functor& op, const double* D,
   std::vector<double> V(N * (max_m + 1)), AV(N * (max_m + 1)),
       C((max_m + 1) * (max_m + 1)), LAM(max_m + 1);
 
-  // Copy over guess
+  // Copy over normalized guess
+  const auto guess_nrm = blas::nrm2(N, X, 1);
+  if(guess_nrm == 0.) throw std::runtime_error("Davidson: Zero Guess Provided");
   std::copy_n(X, N, V.begin());
+  blas::scal(N, 1. / guess_nrm, V.data(), 1);
 
   // Compute Initial A*V
   op.operator_action(1, 1., V.data(), N, 0., AV.data(), N);
@@ -323,8 +326,12 @@ auto p_davidson(int64_t N_local, int64_t max_m, const Functor& op,
       AV_local(N_local * (max_m + 1)), C((max_m + 1) * (max_m + 1)),
       LAM(max_m + 1);
 
-  // Copy over guess
+  // Copy over normalized guess
+  auto guess_dot = blas::dot(N_local, X_local, 1, X_local, 1);
+  guess_dot = allreduce(guess_dot, MPI_SUM, comm);
+  if(guess_dot == 0.) throw std::runtime_error("Davidson: Zero Guess Provided");
   std::copy_n(X_local, N_local, V_local.begin());
+  blas::scal(N_local, 1. / std::sqrt(guess_dot), V_local.data(), 1);
 
   // Compute initial A*V
   op.operator_action(1, 1., V_local.data(), N_local, 0., AV_local.data(),
-- 
2.43.0


From 33ce1ec3f5e70645bdf6a62b92ccff829617bffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:12 +0000
Subject: [PATCH 24/50] fix: the Davidson solvers accept a guess that is
 already converged

---
 include/macis/solvers/davidson.hpp | 39 ++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/include/macis/solvers/davidson.hpp b/include/macis/solvers/davidson.hpp
index f2e0658..2695f19 100644
--- a/include/macis/solvers/davidson.hpp
+++ b/include/macis/solvers/davidson.hpp
@@ -155,13 +155,21 @@ auto davidson(int64_t N, int64_t max_m, const Functor& op, const double* D,
   // Compute Initial A*V
   op.operator_action(1, 1., V.data(), N, 0., AV.data(), N);
 
-  // Copy AV(:,0) -> V(:,1) and orthogonalize wrt V(:,0)
+  // Copy AV(:,0) -> V(:,1) and project out V(:,0), the remainder is the residual
+  // of the guess
   std::copy_n(AV.data(), N, V.data() + N);
-  gram_schmidt(N, 1, V.data(), N, V.data() + N);
+  LAM[0] = blas::dot(N, V.data(), 1, AV.data(), 1);
+  blas::axpy(N, -LAM[0], V.data(), 1, V.data() + N, 1);
+
+  // Check for convergence of the guess, otherwise orthonormalize V(:,1)
+  bool converged = blas::nrm2(N, V.data() + N, 1) < tol;
+  if(converged)
+    std::copy_n(V.data(), N, X);
+  else
+    gram_schmidt(N, 1, V.data(), N, V.data() + N);
 
-  bool converged = false;
   size_t iter = 1;
-  for(int64_t i = 1; i < max_m; ++i, ++iter) {
+  for(int64_t i = 1; i < max_m and not converged; ++i, ++iter) {
     const auto k = i + 1;  // Current subspace dimension after new vector
 
     // AV(:,i) = A * V(:,i)
@@ -337,14 +345,25 @@ auto p_davidson(int64_t N_local, int64_t max_m, const Functor& op,
   op.operator_action(1, 1., V_local.data(), N_local, 0., AV_local.data(),
                      N_local);
 
-  // Copy AV(:,0) -> V(:,1) and orthogonalize wrt V(:,0)
-  std::copy_n(AV_local.data(), N_local, V_local.data() + N_local);
-  p_gram_schmidt(N_local, 1, V_local.data(), N_local, V_local.data() + N_local,
-                 comm);
+  // Copy AV(:,0) -> V(:,1) and project out V(:,0), the remainder is the residual
+  // of the guess
+  double* R0_local = V_local.data() + N_local;
+  std::copy_n(AV_local.data(), N_local, R0_local);
+  LAM[0] = blas::dot(N_local, V_local.data(), 1, AV_local.data(), 1);
+  LAM[0] = allreduce(LAM[0], MPI_SUM, comm);
+  blas::axpy(N_local, -LAM[0], V_local.data(), 1, R0_local, 1);
+
+  // Check for convergence of the guess, otherwise orthonormalize V(:,1)
+  auto guess_res = blas::dot(N_local, R0_local, 1, R0_local, 1);
+  guess_res = std::sqrt(allreduce(guess_res, MPI_SUM, comm));
+  bool converged = guess_res < tol;
+  if(converged)
+    std::copy_n(V_local.data(), N_local, X_local);
+  else
+    p_gram_schmidt(N_local, 1, V_local.data(), N_local, R0_local, comm);
 
-  bool converged = false;
   int64_t iter = 1;
-  for(int64_t i = 1; i < max_m; ++i, ++iter) {
+  for(int64_t i = 1; i < max_m and not converged; ++i, ++iter) {
     const auto k = i + 1;  // Current subspace dimension after new vector
 
     // AV(:,i) = A * V(:,i)
-- 
2.43.0


From 0ccdf6c703dd842da8e7afd0606ca74df461ed41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:58 +0000
Subject: [PATCH 25/50] fix: keep the Davidson basis orthogonal when a new
 vector is nearly contained in it

---
 include/macis/solvers/davidson.hpp | 73 +++++++++++++++++++-----------
 1 file changed, 46 insertions(+), 27 deletions(-)

diff --git a/include/macis/solvers/davidson.hpp b/include/macis/solvers/davidson.hpp
index 2695f19..f78dfb1 100644
--- a/include/macis/solvers/davidson.hpp
+++ b/include/macis/solvers/davidson.hpp
@@ -111,18 +111,28 @@ void p_diagonal_guess(size_t N_local, const SpMatType& A, double* X) {
 inline void gram_schmidt(int64_t N, int64_t K, const double* V_old, int64_t LDV,
                          double* V_new) {
   std::vector<double> inner(K);
-  blas::gemm(blas::Layout::ColMajor, blas::Op::ConjTrans, blas::Op::NoTrans, K,
-             1, N, 1., V_old, LDV, V_new, N, 0., inner.data(), K);
-  blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans, N, 1,
-             K, -1., V_old, LDV, inner.data(), K, 1., V_new, N);
+  auto project = [&]() {
+    blas::gemm(blas::Layout::ColMajor, blas::Op::ConjTrans, blas::Op::NoTrans,
+               K, 1, N, 1., V_old, LDV, V_new, N, 0., inner.data(), K);
+    blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans, N,
+               1, K, -1., V_old, LDV, inner.data(), K, 1., V_new, N);
+  };
 
-  blas::gemm(blas::Layout::ColMajor, blas::Op::ConjTrans, blas::Op::NoTrans, K,
-             1, N, 1., V_old, LDV, V_new, N, 0., inner.data(), K);
-  blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans, N, 1,
-             K, -1., V_old, LDV, inner.data(), K, 1., V_new, N);
+  const auto nrm_in = blas::nrm2(N, V_new, 1);
+  project();
+  project();
 
   auto nrm = blas::nrm2(N, V_new, 1);
   blas::scal(N, 1. / nrm, V_new, 1);
+
+  // If (nearly) all of V_new was projected out, the remainder is dominated by
+  // rounding errors which, once normalized, are not orthogonal to V_old
+  if(nrm < 1e-8 * nrm_in) {
+    project();
+    project();
+    nrm = blas::nrm2(N, V_new, 1);
+    blas::scal(N, 1. / nrm, V_new, 1);
+  }
 }
 
 template <typename Functor>
@@ -243,31 +253,40 @@ inline void p_gram_schmidt(int64_t N_local, int64_t K, const double* V_old,
   const int64_t LD = std::max<int64_t>(1, N_local);
   LDV = std::max<int64_t>(1, LDV);
 
-  // Compute local V_old**H * V_new
-  blas::gemm(blas::Layout::ColMajor, blas::Op::ConjTrans, blas::Op::NoTrans, K,
-             1, N_local, 1., V_old, LDV, V_new, LD, 0., inner.data(), K);
+  auto project = [&]() {
+    // Compute local V_old**H * V_new
+    blas::gemm(blas::Layout::ColMajor, blas::Op::ConjTrans, blas::Op::NoTrans,
+               K, 1, N_local, 1., V_old, LDV, V_new, LD, 0., inner.data(), K);
 
-  // Reduce inner product
-  allreduce(inner.data(), K, MPI_SUM, comm);
+    // Reduce inner product
+    allreduce(inner.data(), K, MPI_SUM, comm);
 
-  // Project locally
-  blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
-             N_local, 1, K, -1., V_old, LDV, inner.data(), K, 1., V_new,
-             LD);
+    // Project locally
+    blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
+               N_local, 1, K, -1., V_old, LDV, inner.data(), K, 1., V_new, LD);
+  };
 
-  // Repeat
-  blas::gemm(blas::Layout::ColMajor, blas::Op::ConjTrans, blas::Op::NoTrans, K,
-             1, N_local, 1., V_old, LDV, V_new, LD, 0., inner.data(), K);
-  allreduce(inner.data(), K, MPI_SUM, comm);
-  blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
-             N_local, 1, K, -1., V_old, LDV, inner.data(), K, 1., V_new,
-             LD);
+  auto norm = [&]() {
+    double dot = blas::dot(N_local, V_new, 1, V_new, 1);
+    return std::sqrt(allreduce(dot, MPI_SUM, comm));
+  };
+
+  const double nrm_in = norm();
+  project();
+  project();
 
   // Normalize
-  double dot = blas::dot(N_local, V_new, 1, V_new, 1);
-  dot = allreduce(dot, MPI_SUM, comm);
-  double nrm = std::sqrt(dot);
+  double nrm = norm();
   blas::scal(N_local, 1. / nrm, V_new, 1);
+
+  // If (nearly) all of V_new was projected out, the remainder is dominated by
+  // rounding errors which, once normalized, are not orthogonal to V_old
+  if(nrm < 1e-8 * nrm_in) {
+    project();
+    project();
+    nrm = norm();
+    blas::scal(N_local, 1. / nrm, V_new, 1);
+  }
 }
 
 inline void p_rayleigh_ritz(int64_t N_local, int64_t K, const double* X,
-- 
2.43.0


From 9f3fbc28b202c07ec639525b4644c776954c0a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:25 +0000
Subject: [PATCH 26/50] fix: asci_grow returns the energy of the rotated
 orbitals

---
 include/macis/asci/grow.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/macis/asci/grow.hpp b/include/macis/asci/grow.hpp
index f3f4260..a942942 100644
--- a/include/macis/asci/grow.hpp
+++ b/include/macis/asci/grow.hpp
@@ -124,7 +124,7 @@ auto asci_grow(ASCISettings asci_settings, MCSCFSettings mcscf_settings,
       logger->trace("  * Rediagonalizing");
       auto rdg_st = hrt_t::now();
       std::vector<double> X_local;
-      selected_ci_diag(
+      E = selected_ci_diag<N, index_t>(
           wfn.begin(), wfn.end(), ham_gen, mcscf_settings.ci_matel_tol,
           mcscf_settings.ci_max_subspace, mcscf_settings.ci_res_tol,
           X_local MACIS_MPI_CODE(, comm));
-- 
2.43.0


From 1ed787fb60d5c53764eb52eebe9368a4d8125095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:55 +0000
Subject: [PATCH 27/50] fix: asci_grow stops when the wavefunction does not
 grow

---
 include/macis/asci/grow.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/macis/asci/grow.hpp b/include/macis/asci/grow.hpp
index a942942..aa0f48a 100644
--- a/include/macis/asci/grow.hpp
+++ b/include/macis/asci/grow.hpp
@@ -60,7 +60,7 @@ auto asci_grow(ASCISettings asci_settings, MCSCFSettings mcscf_settings,
     auto ai_en = hrt_t::now();
     dur_t ai_dur = ai_en - ai_st;
     logger->trace("  * ASCI_ITER_DUR = {:.2e} ms", ai_dur.count());
-    if(ndets_new > wfn.size())
+    if(ndets_new > wfn.size() or wfn.size() <= prev_size)
       throw std::runtime_error("Wavefunction didn't grow enough...");
 
     logger->info(fmt_string, iter++, E, E - E0, wfn.size());
@@ -161,6 +161,7 @@ auto asci_grow(ASCISettings asci_settings, MCSCFSettings mcscf_settings,
                     dur_t(grow_rot_en - grow_rot_st).count());
     }
 
+    prev_size = wfn.size();
     E0 = E;
   }
   auto grow_en = hrt_t::now();
-- 
2.43.0


From c17df3589f7b57e7383e05d6f2ca242b2c19f865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:40 +0000
Subject: [PATCH 28/50] fix: compute_casci_rdms forms the density matrices from
 the full CI vector on every rank

---
 include/macis/util/cas.hpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/include/macis/util/cas.hpp b/include/macis/util/cas.hpp
index 63c8f4a..8a47f40 100644
--- a/include/macis/util/cas.hpp
+++ b/include/macis/util/cas.hpp
@@ -7,6 +7,8 @@
  */
 
 #pragma once
+#include <numeric>
+
 #include <macis/solvers/selected_ci_diag.hpp>
 #include <macis/types.hpp>
 #include <macis/util/mcscf.hpp>
@@ -26,7 +28,7 @@ namespace macis {
  *  @param[in] V        The two-body Hamiltonian
  *  @param[out] ORDM    The CAS-CI 1-RDM
  *  @param[out] TRDM    The CAS-CI 2-RDM
- *  @param[out] C       The CAS-CI CI vector
+ *  @param[in,out] C    The CAS-CI CI vector (the local rows if distributed)
  *  @param[in]  comm    MPI Communicator on which to solve the EVP.
  */
 template <typename HamGen>
@@ -55,9 +57,27 @@ double compute_casci_rdms(
                        settings.ci_max_subspace, settings.ci_res_tol, C,
                        MACIS_MPI_CODE(comm, ) true);
 
+  // The RDMs require all rows of the CI vector
+  double* C_ptr = C.data();
+#ifdef MACIS_ENABLE_MPI
+  std::vector<double> C_full;
+  const int world_size = comm_size(comm);
+  if(world_size > 1) {
+    const int local_count = C.size();
+    std::vector<int> counts(world_size), displs(world_size);
+    MPI_Allgather(&local_count, 1, MPI_INT, counts.data(), 1, MPI_INT, comm);
+    std::exclusive_scan(counts.begin(), counts.end(), displs.begin(), 0);
+
+    C_full.resize(dets.size());
+    MPI_Allgatherv(C.data(), local_count, MPI_DOUBLE, C_full.data(),
+                   counts.data(), displs.data(), MPI_DOUBLE, comm);
+    C_ptr = C_full.data();
+  }
+#endif
+
   // Compute RDMs
-  ham_gen.form_rdms(dets.begin(), dets.end(), dets.begin(), dets.end(),
-                    C.data(), matrix_span<double>(ORDM, no, no),
+  ham_gen.form_rdms(dets.begin(), dets.end(), dets.begin(), dets.end(), C_ptr,
+                    matrix_span<double>(ORDM, no, no),
                     rank4_span<double>(TRDM, no, no, no, no));
 
   return E0;
-- 
2.43.0


From bb87fb738f274dca18dc81c82fa4f25ee5d02782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:31 +0000
Subject: [PATCH 29/50] fix: no orbital step for redundant rotations

---
 src/macis/orbital_steps.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/macis/orbital_steps.cxx b/src/macis/orbital_steps.cxx
index 95fd4f4..b761a67 100644
--- a/src/macis/orbital_steps.cxx
+++ b/src/macis/orbital_steps.cxx
@@ -6,6 +6,7 @@
  * See LICENSE.txt for details
  */
 
+#include <cmath>
 #include <macis/util/orbital_hessian.hpp>
 #include <macis/util/orbital_steps.hpp>
 
@@ -24,9 +25,10 @@ void precond_cg_orbital_step(NumOrbital norb, NumInactive ninact,
   approx_diag_hessian(ninact, nact, nvirt, Fi, LDFi, Fa, LDFa, A1RDM, LDD, F,
                       LDF, DH.data());
 
-  // Precondition the gradient
+  // Precondition the gradient. Rotations among equally (un)occupied orbitals are
+  // redundant: both gradient and Hessian vanish and no step is to be taken.
   for(size_t p = 0; p < orb_rot_sz; ++p) {
-    K_lin[p] = -OG[p] / DH[p];
+    K_lin[p] = std::abs(DH[p]) > 1e-12 ? -OG[p] / DH[p] : 0.0;
   }
 }
 
-- 
2.43.0


From 36a738d3d4a9f4d79790316dcfe556a35152b047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:59 +0000
Subject: [PATCH 30/50] fix: honour the index base in the COO matrix product

---
 src/sparsexx/include/sparsexx/spblas/spmbv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/spblas/spmbv.hpp b/src/sparsexx/include/sparsexx/spblas/spmbv.hpp
index 419c42c..a77eb99 100644
--- a/src/sparsexx/include/sparsexx/spblas/spmbv.hpp
+++ b/src/sparsexx/include/sparsexx/spblas/spmbv.hpp
@@ -121,8 +121,8 @@ gespmbv(int64_t K, ALPHAT ALPHA, const SpMatType& A,
 
   for(index_type k = 0; k < K; ++k)
     for(index_type inz = 0; inz < nnz; ++inz) {
-      const auto i = Ari[inz];
-      const auto j = Aci[inz];
+      const auto i = Ari[inz] - indexing;
+      const auto j = Aci[inz] - indexing;
       AV[i + k * LDAV] += alpha * Anz[inz] * V[j + k * LDV];
     }
 }
-- 
2.43.0


From 4b7c6b616c33f51df657cfb354eb9feffd0a2efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:59 +0000
Subject: [PATCH 31/50] fix: honour the index base when expanding a COO matrix

---
 .../include/sparsexx/matrix_types/dense_conversions.hpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/dense_conversions.hpp b/src/sparsexx/include/sparsexx/matrix_types/dense_conversions.hpp
index 376bfa3..eb633cf 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/dense_conversions.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/dense_conversions.hpp
@@ -59,7 +59,7 @@ void convert_to_dense(const coo_matrix<Args...>& A,
 
 #pragma omp parallel for
   for(int64_t i = 0; i < nnz; ++i) {
-    A_dense[Ari[i] + Aci[i] * LDAD] = Anz[i];
+    A_dense[(Ari[i] - indexing) + (Aci[i] - indexing) * LDAD] = Anz[i];
   }
 }
 
-- 
2.43.0


From 4067b67d697fd9128a4b2956b382c81ff7c0d2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:19:42 +0000
Subject: [PATCH 32/50] fix: legacy read_RDMs reads the orbital count into an
 initialised variable and rejects short files

---
 attic/inc/cmz_ed/rdms.h++ | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/attic/inc/cmz_ed/rdms.h++ b/attic/inc/cmz_ed/rdms.h++
index b0a7549..14d8397 100644
--- a/attic/inc/cmz_ed/rdms.h++
+++ b/attic/inc/cmz_ed/rdms.h++
@@ -487,9 +487,11 @@ namespace cmz
             if(!ifile)
               throw ("Could not open " + file);
     
-            int64_t norbs;
+            int norbs = 0;
        
             ifile.read((char*) &norbs, sizeof(int));
+            if(!ifile)
+              throw ("Could not read RDMs from " + file);
     
             if(norbs != norbitals){
               ifile.close();
@@ -498,6 +500,8 @@ namespace cmz
              
             ifile.read((char*) &rdm1[0], rdm1.size() * sizeof(double));
             ifile.read((char*) &rdm2[0], rdm2.size() * sizeof(double));
+            if(!ifile)
+              throw ("Could not read RDMs from " + file);
     
             ifile.close();
         
-- 
2.43.0


From 6a7d81267916dd4b8f7871fb9b36b233e571d1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:19:42 +0000
Subject: [PATCH 33/50] fix: legacy ReadMat rejects unreadable, incomplete and
 out-of-range entries

---
 attic/src/cmz_ed/utils.c++ | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/attic/src/cmz_ed/utils.c++ b/attic/src/cmz_ed/utils.c++
index 20c9c7e..86175df 100644
--- a/attic/src/cmz_ed/utils.c++
+++ b/attic/src/cmz_ed/utils.c++
@@ -20,7 +20,10 @@ namespace cmz
       int rows, cols, nnz;
       getline(ifile, line);
       istringstream iss(line);
-      iss >> rows >> cols >> nnz;
+      if(!(iss >> rows >> cols >> nnz)){
+        cout << "COULD NOT READ MATRIX DIMENSIONS!" << endl;
+        return 0;
+      }
     
       assert(rows == cols);
       return rows;
@@ -43,7 +46,10 @@ namespace cmz
       int rows, cols, nnz;
       getline(ifile, line);
       istringstream iss(line);
-      iss >> rows >> cols >> nnz;
+      if(!(iss >> rows >> cols >> nnz)){
+        cerr << "ERROR!! COULD NOT READ MATRIX DIMENSIONS!!" << endl;
+        return false;
+      }
       
       if(mat.rows() != rows or mat.cols() != cols){
     
@@ -52,14 +58,24 @@ namespace cmz
       }
       // READ THE TRIPLETS TO FILL THE MATRIX.
       VecT tripletlist;
+      int nread = 0;
       while(getline(ifile, line)){
+        if(line.find_first_not_of(" \t\r") == string::npos) continue;
         istringstream iss(line);
         int r, c;
         double val;
-        iss >> r >> c >> val;
+        if(!(iss >> r >> c >> val) or r < 0 or r >= rows or c < 0 or c >= cols){
+          cerr << "ERROR!! BAD MATRIX ENTRY: " << line << endl;
+          return false;
+        }
+        nread++;
         tripletlist.push_back(T(r , c , val)); 
         if(r != c) tripletlist.push_back(T(c , r , val)); 
       } 
+      if(ifile.bad() or nread != nnz){
+        cerr << "ERROR!! READ " << nread << " OF " << nnz << " MATRIX ENTRIES!!" << endl;
+        return false;
+      }
       mat.setFromTriplets(tripletlist.begin(), tripletlist.end());
       mat.makeCompressed();
       return true;
-- 
2.43.0


From e15438d8a7fec29d054f9fad6de1338e92f4b400 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:19:42 +0000
Subject: [PATCH 34/50] fix: legacy ReadVec never writes past the vector and
 rejects short files

---
 attic/src/cmz_ed/utils.c++ | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/attic/src/cmz_ed/utils.c++ b/attic/src/cmz_ed/utils.c++
index 86175df..05674f0 100644
--- a/attic/src/cmz_ed/utils.c++
+++ b/attic/src/cmz_ed/utils.c++
@@ -92,14 +92,15 @@ namespace cmz
       }
       
       int size, cont = 0;
-      ifile >> size;
+      if(!(ifile >> size) or size < 0) return false;
       vec = VectorXcd::Zero(size);
       double val;
-      while(ifile >> val){
+      while(cont < size and ifile >> val){
         vec(cont) = std::complex<double>(val, 0.);
         cont++;
       }  
-      return true;
+      // THE FILE HAS TO HOLD EXACTLY AS MANY VALUES AS ANNOUNCED
+      return cont == size and (ifile >> std::ws).eof() and not ifile.bad();
     }
     
     bool ReadVec(string vec_file, VecD &vec){
@@ -113,14 +114,15 @@ namespace cmz
       }
       
       int size, cont = 0;
-      ifile >> size;
+      if(!(ifile >> size) or size < 0) return false;
       vec.resize(size, 0.);
       double val;
-      while(ifile >> val){
+      while(cont < size and ifile >> val){
         vec[cont] = val;
         cont++;
       }  
-      return true;
+      // THE FILE HAS TO HOLD EXACTLY AS MANY VALUES AS ANNOUNCED
+      return cont == size and (ifile >> std::ws).eof() and not ifile.bad();
     }
     
     bool ReadInput(string in_file, Input_t &input){
-- 
2.43.0


From 1c63e8204f634bce3de88705bf27c28fb0677aea Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:19:42 +0000
Subject: [PATCH 35/50] fix: legacy ReadInput keeps blank lines and keys
 without value from inheriting the previous entry

---
 attic/src/cmz_ed/utils.c++ | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/attic/src/cmz_ed/utils.c++ b/attic/src/cmz_ed/utils.c++
index 05674f0..a9cf4a8 100644
--- a/attic/src/cmz_ed/utils.c++
+++ b/attic/src/cmz_ed/utils.c++
@@ -132,11 +132,12 @@ namespace cmz
       ifstream ifile(in_file.c_str(), ios::in);
       if(!ifile)
         throw ("Error reading input: Cannot open " + in_file);
-      string line, key, val;
+      string line;
       while(getline(ifile, line)){
         if(line[0] == '#' || line[0] == '!' || line[0] == '%') continue;
         istringstream iss(line);
-        iss >> key;
+        string key, val;
+        if(!(iss >> key)) continue;
         iss >> std::ws;
         std::getline(iss, val);
         if(input.find(key) == input.end()){
@@ -146,6 +147,8 @@ namespace cmz
           throw ("Key " + key + " was declared more than once in input file!!");
         }
       }
+      if(ifile.bad())
+        throw ("Error reading input: Cannot read " + in_file);
       return true;
     }
     
-- 
2.43.0


From 480071b670ce7dee185895aea3db1288fe449f3c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:19:42 +0000
Subject: [PATCH 36/50] fix: legacy read_FCIdump rejects malformed entries and
 read errors

---
 attic/inc/cmz_ed/integrals.h++ | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/attic/inc/cmz_ed/integrals.h++ b/attic/inc/cmz_ed/integrals.h++
index 1cc0f9a..08c0a24 100644
--- a/attic/inc/cmz_ed/integrals.h++
+++ b/attic/inc/cmz_ed/integrals.h++
@@ -861,10 +861,14 @@ namespace cmz
       
               ss >> i >> a >> j >> b >> matel;
              
-              if(abs(matel) < 1.E-16) continue;
-      
               bool bad = false; //Flag to check for errors
-              if(!ss) bad = true;
+              if(!ss)
+              {
+                if(line.find_first_not_of(" \t\r") == std::string::npos) continue;
+                throw ( "Bad integral read of " + file);
+              }
+
+              if(abs(matel) < 1.E-16) continue;
       
               //Classify read data
               if( i == 0 && j == 0 && a == 0 && b == 0 )
@@ -893,6 +897,7 @@ namespace cmz
       
               if( bad ) throw ( "Bad integral read of " + file);
             }	
+            if( ifile.bad() ) throw ( "Error reading " + file );
             if( world_rank == 0 && !quiet ) {
             std::cout << "Read " << t_store.size() + u_store.size() << " integrals" << std::endl;
             if( core_energy )
-- 
2.43.0


From b3c7c2efa4f9bebc200bf94a7e28543a09de3043 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:19:42 +0000
Subject: [PATCH 37/50] fix: legacy write_FCIdump reports write errors

---
 attic/inc/cmz_ed/integrals.h++ | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/attic/inc/cmz_ed/integrals.h++ b/attic/inc/cmz_ed/integrals.h++
index 08c0a24..3c4b6a0 100644
--- a/attic/inc/cmz_ed/integrals.h++
+++ b/attic/inc/cmz_ed/integrals.h++
@@ -963,6 +963,8 @@ namespace cmz
           void write_FCIdump( const string &file ) const
           {
             std::ofstream out( file );
+            if( !out )
+              throw ("ERROR OPENING FILE " + file);
             out.precision(12);
             auto w5 = std::setw(5), w20 = std::setw(20);
             const int64_t n = norbitals;
@@ -985,6 +987,9 @@ namespace cmz
                 continue;
               out  << w5 << idx.i+1 << w5 << idx.a+1 << w5 << idx.j+1 << w5 << idx.b+1 << w20 << x << std::endl;
             }
+            out.close();
+            if( !out )
+              throw ("ERROR WRITING FILE " + file);
           }
       
       };
-- 
2.43.0


From 480c5450fa711288194c5c5d1efe6e5d43a7ff90 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:19:42 +0000
Subject: [PATCH 38/50] fix: legacy density matrices: down-down contributions
 and indices of double replacements

---
 attic/src/cmz_ed/rdms.c++ | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/attic/src/cmz_ed/rdms.c++ b/attic/src/cmz_ed/rdms.c++
index e4e3149..049499a 100644
--- a/attic/src/cmz_ed/rdms.c++
+++ b/attic/src/cmz_ed/rdms.c++
@@ -35,8 +35,7 @@ namespace cmz
           {
             uint64_t o1 = ket.GetFlippedOccIndx( bra );
             uint64_t v1 = bra.GetFlippedOccIndx( ket );
-            double sign = bra.SingleExcUp( o1, v1 );
-            sign = ket.SingleExcUp( v1, o1 );
+            double sign = ket.SingleExcUp( v1, o1 );
             uint64_t o2 = ket.GetFlippedOccIndx( bra );
             uint64_t v2 = bra.GetFlippedOccIndx( ket );
             sign *= ket.SingleExcUp( v2, o2 );
@@ -46,12 +45,11 @@ namespace cmz
             rdm2[ indexer(v2,v1,o1,o2) ] -= sign * contrib * 0.5;
           }
           // Double Do-Do
-          else if( exc_do == 4 && exc_do == 0 )
+          else if( exc_do == 4 && exc_up == 0 )
           {
             uint64_t o1 = ket.GetFlippedOccIndx( bra );
             uint64_t v1 = bra.GetFlippedOccIndx( ket );
-            double sign = bra.SingleExcDo( o1, v1 );
-            sign = ket.SingleExcDo( v1, o1 );
+            double sign = ket.SingleExcDo( v1, o1 );
             uint64_t o2 = ket.GetFlippedOccIndx( bra );
             uint64_t v2 = bra.GetFlippedOccIndx( ket );
             sign *= ket.SingleExcDo( v2, o2 );
-- 
2.43.0


From e75c0d740fbb074a8fdbc7811de09d8470eecaef Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:19:42 +0000
Subject: [PATCH 39/50] fix: legacy determinants: masks and bit searches beyond
 31 spin orbitals

---
 attic/inc/cmz_ed/slaterdet.h++ | 6 +++---
 attic/src/cmz_ed/slaterdet.c++ | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/attic/inc/cmz_ed/slaterdet.h++ b/attic/inc/cmz_ed/slaterdet.h++
index d496ff9..4116282 100644
--- a/attic/inc/cmz_ed/slaterdet.h++
+++ b/attic/inc/cmz_ed/slaterdet.h++
@@ -220,7 +220,7 @@ namespace cmz
          */
         uint64_t GetFlippedOccIndx( const slater_det &st ) const 
         {
-          return (ffs( state & (state ^ st.GetState() ) ) - 1LL) % Norbs; 
+          return (ffsll( state & (state ^ st.GetState() ) ) - 1LL) % Norbs; 
         }
         /**
          * @brief Give position of first different bit/orbital between *this 
@@ -237,7 +237,7 @@ namespace cmz
          */
         uint64_t GetFlippedOccIndxUp( const slater_det &st ) const 
         { 
-          return (ffs( state & (state ^ st.GetState() ) & ((1LL << Norbs) - 1LL) ) - 1LL) % Norbs; 
+          return (ffsll( state & (state ^ st.GetState() ) & ((1LL << Norbs) - 1LL) ) - 1LL) % Norbs; 
         }
         /**
          * @brief Give position of first different bit/orbital between *this 
@@ -254,7 +254,7 @@ namespace cmz
          */
         uint64_t GetFlippedOccIndxDo( const slater_det &st ) const 
         { 
-          return (ffs( state & (state ^ st.GetState() ) & (~((1LL << Norbs) - 1LL)) ) - 1LL) % Norbs; 
+          return (ffsll( state & (state ^ st.GetState() ) & (~((1LL << Norbs) - 1LL)) ) - 1LL) % Norbs; 
         }
         /**
          * @brief Defines order among Slater determinants, for use in std::set. 
diff --git a/attic/src/cmz_ed/slaterdet.c++ b/attic/src/cmz_ed/slaterdet.c++
index 7b35d4f..b2af89b 100644
--- a/attic/src/cmz_ed/slaterdet.c++
+++ b/attic/src/cmz_ed/slaterdet.c++
@@ -10,7 +10,7 @@ namespace cmz
       uint64_t omax = std::max(i,a);
       uint64_t omin = std::min(i,a);
       // Bitmask to check for Fermionic sign change.
-      uint64_t mask = ((1<<omax) - 1) ^ ((1<<omin+1) - 1);
+      uint64_t mask = ((1ULL<<omax) - 1) ^ ((1ULL<<(omin+1)) - 1);
       mask = state & mask;
       Flip(i); Flip(a);
       return (std::popcount(mask) % 2) == 1 ? -1. : 1.; 
@@ -21,7 +21,7 @@ namespace cmz
       uint64_t omax = std::max(i,a) + Norbs;
       uint64_t omin = std::min(i,a) + Norbs;
       // Bitmask to check for Fermionic sign change.
-      uint64_t mask = ((1<<omax) - 1) ^ ((1<<omin+1) - 1);
+      uint64_t mask = ((1ULL<<omax) - 1) ^ ((1ULL<<(omin+1)) - 1);
       mask = state & mask;
       Flip(i+Norbs); Flip(a+Norbs);
       return (std::popcount(mask) % 2) == 1 ? -1. : 1.; 
-- 
2.43.0


From a3d0b0821b9cb49129eb9223053dfae485f12565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:33 +0000
Subject: [PATCH 40/50] fix: matrix-market reader: recognise the banner in any
 case, refuse kinds of matrix it does not know

---
 src/sparsexx/include/sparsexx/io/read_mm.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/sparsexx/include/sparsexx/io/read_mm.hpp b/src/sparsexx/include/sparsexx/io/read_mm.hpp
index 2732ebd..0e56b21 100644
--- a/src/sparsexx/include/sparsexx/io/read_mm.hpp
+++ b/src/sparsexx/include/sparsexx/io/read_mm.hpp
@@ -263,8 +263,21 @@ coo_matrix<T, index_t, Alloc> read_mm_as_coo(
     if(tokens.size() != 5 or tokens[0].compare("%%MatrixMarket"))
       throw std::runtime_error(fname + " is not a MM file");
 
+    // The qualifiers are not case sensitive
+    for(auto& t : tokens)
+      std::transform(t.begin(), t.end(), t.begin(),
+                     [](unsigned char c) { return std::tolower(c); });
+
     is_sym = !tokens[4].compare("symmetric");
     is_pattern = !tokens[3].compare("pattern");
+    const bool is_real = !tokens[3].compare("real") or
+                         !tokens[3].compare("double") or
+                         !tokens[3].compare("integer");
+
+    if(tokens[1].compare("matrix") or tokens[2].compare("coordinate") or
+       not(is_real or is_pattern) or
+       not(is_sym or !tokens[4].compare("general")))
+      throw std::runtime_error(fname + " is of an unsupported MM type");
 
     while(std::getline(f_in, line)) {
       if(line[0] != '%') break;
-- 
2.43.0


From 72ff74131e9ab28f9c4a93acde8ec49744cbf85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:33 +0000
Subject: [PATCH 41/50] fix: four index transform: honour the leading
 dimensions of a padded tensor

---
 src/macis/transform.cxx | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/macis/transform.cxx b/src/macis/transform.cxx
index 0403307..e863e6c 100644
--- a/src/macis/transform.cxx
+++ b/src/macis/transform.cxx
@@ -63,9 +63,20 @@ void four_index_transform(size_t norb_old, size_t norb_new, const double* X,
   // 1st Quarter
   // TMP1(p,j,k,l) = C(i,p) * X(i,j,k,l)
   // TMP1(p, jkl)  = C(i,p) * X(i,jkl)
-  blas::gemm(blas::Layout::ColMajor, blas::Op::Trans, blas::Op::NoTrans,
-             norb_new, norb_old3, norb_old, 1.0, C, LDC, X, LDX, 0.0,
-             tmp1.data(), norb_new);
+  if(LDX == norb_old) {
+    blas::gemm(blas::Layout::ColMajor, blas::Op::Trans, blas::Op::NoTrans,
+               norb_new, norb_old3, norb_old, 1.0, C, LDC, X, LDX, 0.0,
+               tmp1.data(), norb_new);
+  } else {
+    for(size_t l = 0; l < norb_old; ++l)
+      for(size_t k = 0; k < norb_old; ++k) {
+        auto X_kl = X + k * LDX * LDX + l * LDX * LDX * LDX;
+        auto TMP1_kl = tmp1.data() + (k + l * norb_old) * norb_old * norb_new;
+        blas::gemm(blas::Layout::ColMajor, blas::Op::Trans, blas::Op::NoTrans,
+                   norb_new, norb_old, norb_old, 1.0, C, LDC, X_kl, LDX, 0.0,
+                   TMP1_kl, norb_new);
+      }
+  }
 
   // 2nd Quarter
   // TMP2(p,q,k,l) = C(j,q) * TMP1(p,j,k,l)
@@ -92,9 +103,19 @@ void four_index_transform(size_t norb_old, size_t norb_new, const double* X,
   // 4th Quarter
   // Y(p,q,r,s) = C(l,s) * TMP1(p,q,r,l)
   // Y(pqr,s) = V(pqr,l) * C(l,s)
+  const bool packed = LDY == norb_new;
+  std::vector<double> tmp3(packed ? 0 : norb_new3 * norb_new);
   blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
              norb_new3, norb_new, norb_old, 1.0, tmp1.data(), norb_new3, C, LDC,
-             0.0, Y, norb_new3);
+             0.0, packed ? Y : tmp3.data(), norb_new3);
+  if(not packed) {
+    for(size_t s = 0; s < norb_new; ++s)
+      for(size_t r = 0; r < norb_new; ++r)
+        for(size_t q = 0; q < norb_new; ++q)
+          for(size_t p = 0; p < norb_new; ++p)
+            FOUR_IDX_SAME(Y, p, q, r, s, LDY) =
+                FOUR_IDX_SAME(tmp3, p, q, r, s, norb_new);
+  }
 
 #else
 
-- 
2.43.0


From ce3b8e103d68b9d96879a41bd0c554050e10b368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:33 +0000
Subject: [PATCH 42/50] fix: casscf: honour the leading dimensions of the
 density matrices

---
 include/macis/util/mcscf_impl.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/macis/util/mcscf_impl.hpp b/include/macis/util/mcscf_impl.hpp
index 48d1f85..b9952f1 100644
--- a/include/macis/util/mcscf_impl.hpp
+++ b/include/macis/util/mcscf_impl.hpp
@@ -28,6 +28,28 @@ double mcscf_impl(const Functor& rdm_op, MCSCFSettings settings,
                   double E_core, double* T, size_t LDT, double* V, size_t LDV,
                   double* A1RDM, size_t LDD1, double* A2RDM,
                   size_t LDD2 MACIS_MPI_CODE(, MPI_Comm comm)) {
+  // The RDMs are computed in packed storage
+  if(const size_t n = nact.get(); LDD1 != n or LDD2 != n) {
+    std::vector<double> A1(n * n), A2(n * n * n * n);
+    auto for_each_element = [&](const auto& op) {
+      for(size_t j = 0; j < n; ++j)
+        for(size_t i = 0; i < n; ++i) op(A1RDM[i + j * LDD1], A1[i + j * n]);
+      for(size_t l = 0; l < n; ++l)
+        for(size_t k = 0; k < n; ++k)
+          for(size_t j = 0; j < n; ++j)
+            for(size_t i = 0; i < n; ++i)
+              op(A2RDM[i + LDD2 * (j + LDD2 * (k + LDD2 * l))],
+                 A2[i + n * (j + n * (k + n * l))]);
+    };
+    for_each_element([](double& user, double& packed) { packed = user; });
+    const double E =
+        mcscf_impl(rdm_op, settings, nalpha, nbeta, norb, ninact, nact, nvirt,
+                   E_core, T, LDT, V, LDV, A1.data(), n, A2.data(),
+                   n MACIS_MPI_CODE(, comm));
+    for_each_element([](double& user, double& packed) { user = packed; });
+    return E;
+  }
+
   /******************************************************************
    *  Top of MCSCF Routine - Setup and print header info to logger  *
    ******************************************************************/
-- 
2.43.0


From 2953c1b93938029877416710f40beafd88cc9e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:33 +0000
Subject: [PATCH 43/50] fix: legacy input file: report parameters lost when
 memory runs out

---
 attic/inc/cmz_ed/utils.h++ | 6 ++++++
 attic/src/cmz_ed/utils.c++ | 4 +++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/attic/inc/cmz_ed/utils.h++ b/attic/inc/cmz_ed/utils.h++
index 79476a7..8c70e51 100644
--- a/attic/inc/cmz_ed/utils.h++
+++ b/attic/inc/cmz_ed/utils.h++
@@ -433,6 +433,8 @@ namespace cmz
       double tmp;
       while( iss >> tmp )
         res.push_back(tmp);
+      if( iss.bad() )
+        throw ("Could not convert parameter " + key);
       return res;
     }
     
@@ -480,6 +482,8 @@ namespace cmz
       std::string tmp;
       while( iss >> tmp )
         res.push_back( tmp );
+      if( iss.bad() )
+        throw ("Could not convert parameter " + key);
       return res;
     }
     
@@ -527,6 +531,8 @@ namespace cmz
       int tmp;
       while( iss >> tmp )
         res.push_back(tmp);
+      if( iss.bad() )
+        throw ("Could not convert parameter " + key);
       return res;
     }
     
diff --git a/attic/src/cmz_ed/utils.c++ b/attic/src/cmz_ed/utils.c++
index a9cf4a8..fce9989 100644
--- a/attic/src/cmz_ed/utils.c++
+++ b/attic/src/cmz_ed/utils.c++
@@ -137,9 +137,11 @@ namespace cmz
         if(line[0] == '#' || line[0] == '!' || line[0] == '%') continue;
         istringstream iss(line);
         string key, val;
-        if(!(iss >> key)) continue;
+        if(!(iss >> key) and not iss.bad()) continue;
         iss >> std::ws;
         std::getline(iss, val);
+        if(iss.bad())
+          throw ("Error reading input: Cannot read " + in_file);
         if(input.find(key) == input.end()){
           input[key] = val;
         }
-- 
2.43.0


From 2090ed9b868e3bcb6f2c01d969c1c94806561586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:14 +0000
Subject: [PATCH 44/50] fix: bound the orbital step after DIIS extrapolation as
 well

MAX_ORB_STEP limited the step before the extrapolation only. A nearly
singular DIIS matrix made steps of 1e16, whose exponential is not
orthogonal: the optimisation ended below the exact energy.
---
 include/macis/util/mcscf_impl.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/macis/util/mcscf_impl.hpp b/include/macis/util/mcscf_impl.hpp
index b9952f1..b3c8332 100644
--- a/include/macis/util/mcscf_impl.hpp
+++ b/include/macis/util/mcscf_impl.hpp
@@ -253,6 +253,19 @@ double mcscf_impl(const Functor& rdm_op, MCSCFSettings settings,
       diis.add_vector(K_total, OG);
       if(iter >= (settings.diis_start_iter + 2)) {
         K_total = diis.extrapolate();
+
+        // The extrapolated step is subject to the same bound. Steps from a
+        // (nearly) singular DIIS matrix are otherwise unbounded, and their
+        // exponentials no longer orthogonal.
+        std::vector<double> K_diff(K_total);
+        blas::axpy(no2, -1.0, K_total_sav.data(), 1, K_diff.data(), 1);
+        const auto diff_amax =
+            std::abs(K_diff[blas::iamax(no2, K_diff.data(), 1)]);
+        if(diff_amax > max_step) {
+          K_total = K_total_sav;
+          blas::axpy(no2, max_step / diff_amax, K_diff.data(), 1,
+                     K_total.data(), 1);
+        }
       }
     }
 
-- 
2.43.0


From 9711f8f22190184e76ba5061b4af84a0fcb5887b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:40 +0000
Subject: [PATCH 45/50] fix: one-body density matrix without two-body: double
 excitations counted as diagonal

---
 include/macis/util/rdms.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/macis/util/rdms.hpp b/include/macis/util/rdms.hpp
index 72b55bb..3b9d9ac 100644
--- a/include/macis/util/rdms.hpp
+++ b/include/macis/util/rdms.hpp
@@ -108,14 +108,17 @@ inline void rdm_contributions(wfn_t<N> bra_alpha, wfn_t<N> ket_alpha,
 
   if((ex_alpha_count + ex_beta_count) > 4) return;
 
+  // Double excitations only contribute to the 2-RDM
   const auto trdm_ptr = trdm.data_handle();
-  if(ex_alpha_count == 4 and trdm_ptr)
+  if((ex_alpha_count + ex_beta_count) == 4 and not trdm_ptr) return;
+
+  if(ex_alpha_count == 4)
     rdm_contributions_4(bra_alpha, ket_alpha, ex_alpha, val, trdm);
 
-  else if(ex_beta_count == 4 and trdm_ptr)
+  else if(ex_beta_count == 4)
     rdm_contributions_4(bra_beta, ket_beta, ex_beta, val, trdm);
 
-  else if(ex_alpha_count == 2 and ex_beta_count == 2 and trdm_ptr)
+  else if(ex_alpha_count == 2 and ex_beta_count == 2)
     rdm_contributions_22(bra_alpha, ket_alpha, ex_alpha, bra_beta, ket_beta,
                          ex_beta, val, trdm);
 
-- 
2.43.0


From 850a3c1789b7bcb61dff6df109dc1ba7ab42ccdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:50 +0000
Subject: [PATCH 46/50] fix: reject Rutherford-Boeing files with indices
 outside the matrix

---
 src/sparsexx/include/sparsexx/io/read_rb.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sparsexx/include/sparsexx/io/read_rb.hpp b/src/sparsexx/include/sparsexx/io/read_rb.hpp
index ee506a2..2219406 100644
--- a/src/sparsexx/include/sparsexx/io/read_rb.hpp
+++ b/src/sparsexx/include/sparsexx/io/read_rb.hpp
@@ -8,6 +8,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cstdint>
 #include <fstream>
 #include <sparsexx/matrix_types/type_traits.hpp>
@@ -98,6 +99,13 @@ csc_matrix<T, index_t, Alloc> read_rb_as_csc(std::string fname) {
     if(tokenize(line).size())
       throw std::runtime_error("Excess Data in Rutherford-Boeing File");
   if(f_in.bad()) throw std::runtime_error("Error Reading " + fname);
+
+  const auto& colptr = A.colptr();
+  if(colptr[0] != 1 or colptr[n] != nnz + 1 or
+     not std::is_sorted(colptr.begin(), colptr.end()) or
+     std::any_of(A.rowind().begin(), A.rowind().end(),
+                 [=](auto i) { return i < 1 or i > m; }))
+    throw std::runtime_error("Rutherford-Boeing Index Out Of Range");
   return A;
 }
 
-- 
2.43.0


From db317b807c382ca0f31301efd33bbc1b4ee6915a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:50 +0000
Subject: [PATCH 47/50] fix: reject binary triplet files with indices outside
 the matrix

---
 src/sparsexx/include/sparsexx/io/read_binary_triplets.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sparsexx/include/sparsexx/io/read_binary_triplets.hpp b/src/sparsexx/include/sparsexx/io/read_binary_triplets.hpp
index f32d9d6..e29c1cc 100644
--- a/src/sparsexx/include/sparsexx/io/read_binary_triplets.hpp
+++ b/src/sparsexx/include/sparsexx/io/read_binary_triplets.hpp
@@ -41,6 +41,13 @@ detail::enable_if_coo_matrix_t<SpMatType, SpMatType> read_binary_triplet_as_coo(
   if(!f_in) throw std::runtime_error(fname + " could not be read");
 
   A.determine_indexing_from_adj();
+  const index_t base = A.indexing();
+  for(size_t k = 0; k < nnz; ++k) {
+    const auto i = A.rowind()[k] - base;
+    const auto j = A.colind()[k] - base;
+    if(i < 0 or i >= m or j < 0 or j >= n)
+      throw std::runtime_error(fname + " contains an out-of-range entry");
+  }
   A.expand_from_triangle();
   A.sort_by_row_index();
 
-- 
2.43.0


From 8046953099880ab143ad176965f857cb4dc7440f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:50 +0000
Subject: [PATCH 48/50] fix: communication volume: halve the sum over
 processes, not each share

---
 src/sparsexx/include/sparsexx/spblas/pspmbv.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/spblas/pspmbv.hpp b/src/sparsexx/include/sparsexx/spblas/pspmbv.hpp
index 811f4a6..a0ee5cc 100644
--- a/src/sparsexx/include/sparsexx/spblas/pspmbv.hpp
+++ b/src/sparsexx/include/sparsexx/spblas/pspmbv.hpp
@@ -40,8 +40,9 @@ struct spmv_info {
   std::vector<size_t> recv_counts;
 
   inline size_t communication_volume() {
-    size_t local_comm_vol = (send_indices.size() + recv_indices.size()) / 2;
-    return detail::mpi_allreduce(local_comm_vol, MPI_SUM, comm);
+    // Every element is both sent and received
+    size_t local_comm_vol = send_indices.size() + recv_indices.size();
+    return detail::mpi_allreduce(local_comm_vol, MPI_SUM, comm) / 2;
   }
 
   template <typename T>
-- 
2.43.0


From 3f9a24b8be36976952db964d82d493bc532ff2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:35 +0000
Subject: [PATCH 49/50] fix: matrix readers: reject indices which do not fit
 the index type

---
 src/sparsexx/include/sparsexx/io/read_mm.hpp  | 4 ++--
 src/sparsexx/include/sparsexx/io/read_rb.hpp  | 4 ++--
 src/sparsexx/include/sparsexx/util/string.hpp | 8 +++++---
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/io/read_mm.hpp b/src/sparsexx/include/sparsexx/io/read_mm.hpp
index 0e56b21..5c91328 100644
--- a/src/sparsexx/include/sparsexx/io/read_mm.hpp
+++ b/src/sparsexx/include/sparsexx/io/read_mm.hpp
@@ -340,8 +340,8 @@ coo_matrix<T, index_t, Alloc> read_mm_as_coo(
     if(tokens.empty()) continue;
     if(tokens.size() != (is_pattern ? 2 : 3))
       throw std::runtime_error(fname + " contains an invalid entry: " + line);
-    int64_t i = parse_integer(tokens[0]);
-    int64_t j = parse_integer(tokens[1]);
+    int64_t i = parse_integer<index_t>(tokens[0]);
+    int64_t j = parse_integer<index_t>(tokens[1]);
     T v = is_pattern ? 1. : parse_real(tokens[2]);
 
     rowind.push_back(i);
diff --git a/src/sparsexx/include/sparsexx/io/read_rb.hpp b/src/sparsexx/include/sparsexx/io/read_rb.hpp
index 2219406..9241be3 100644
--- a/src/sparsexx/include/sparsexx/io/read_rb.hpp
+++ b/src/sparsexx/include/sparsexx/io/read_rb.hpp
@@ -82,11 +82,11 @@ csc_matrix<T, index_t, Alloc> read_rb_as_csc(std::string fname) {
   csc_matrix<T, index_t, Alloc> A(m, n, nnz);
 
   detail::read_rb_block(f_in, n + 1, [&](int64_t i, const std::string& t) {
-    A.colptr()[i] = parse_integer(t);
+    A.colptr()[i] = parse_integer<index_t>(t);
   });
 
   detail::read_rb_block(f_in, nnz, [&](int64_t i, const std::string& t) {
-    A.rowind()[i] = parse_integer(t);
+    A.rowind()[i] = parse_integer<index_t>(t);
   });
 
   // Pattern files carry no values
diff --git a/src/sparsexx/include/sparsexx/util/string.hpp b/src/sparsexx/include/sparsexx/util/string.hpp
index d0475f9..59f25fa 100644
--- a/src/sparsexx/include/sparsexx/util/string.hpp
+++ b/src/sparsexx/include/sparsexx/util/string.hpp
@@ -56,8 +56,9 @@ static inline std::vector<std::string> tokenize(
 
 }  // tokenize
 
-/// Integer from a token, which must hold nothing else
-static inline int64_t parse_integer(const std::string& token) {
+/// Integer from a token, which must hold nothing else and fit the type
+template <typename IntType = int64_t>
+static inline IntType parse_integer(const std::string& token) {
   size_t end = 0;
   int64_t val = 0;
   try {
@@ -65,7 +66,8 @@ static inline int64_t parse_integer(const std::string& token) {
   } catch(const std::logic_error&) {
     end = 0;
   }
-  if(end == 0 or end != token.size())
+  if(end == 0 or end != token.size() or
+     val != static_cast<int64_t>(static_cast<IntType>(val)))
     throw std::runtime_error("Invalid Integer: " + token);
   return val;
 }
-- 
2.43.0


From a2a64a0af9d0e7f81515601378703e460084739c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:49 +0000
Subject: [PATCH 50/50] fix: the starts of the ranks' values in the distributed
 selection were summed in 32 bits

---
 include/macis/util/dist_quickselect.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/macis/util/dist_quickselect.hpp b/include/macis/util/dist_quickselect.hpp
index 466f060..94aa629 100644
--- a/include/macis/util/dist_quickselect.hpp
+++ b/include/macis/util/dist_quickselect.hpp
@@ -40,7 +40,7 @@ Integral total_gather_and_exclusive_scan(Integral val,
   auto dtype = mpi_traits<Integral>::datatype();
   MPI_Allgather(&val, 1, dtype, gather.data(), 1, dtype, comm);
   Integral total = std::accumulate(gather.begin(), gather.end(), Integral(0));
-  std::exclusive_scan(gather.begin(), gather.end(), scan.begin(), 0);
+  std::exclusive_scan(gather.begin(), gather.end(), scan.begin(), Integral(0));
 
   return total;
 }
-- 
2.43.0

