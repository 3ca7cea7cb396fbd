From 1419aa20e7f891bdfaadc5d33716bb6f12176294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:30 +0000
Subject: [PATCH 01/40] fix: report files that cannot be opened or read instead
 of treating them as empty or ended

---
 src/libcatnip/io/file_readers/filereader.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libcatnip/io/file_readers/filereader.cpp b/src/libcatnip/io/file_readers/filereader.cpp
index 1fd77ea..79aba7e 100644
--- a/src/libcatnip/io/file_readers/filereader.cpp
+++ b/src/libcatnip/io/file_readers/filereader.cpp
@@ -2,6 +2,7 @@
 #include "../../string_support.hpp"
 #include <iostream>
 #include <set>
+#include <stdexcept>
 #include <sys/stat.h>
 
 using namespace catnip;
@@ -21,6 +22,9 @@ void FileReader::read() {
     }
     pos_ = fid_.tellg();
   }
+  if (fid_.bad() || !fid_.eof()) {
+    throw runtime_error("Error while reading file " + fileName_);
+  }
   close();
 }
 
@@ -31,6 +35,9 @@ void FileReader::open() {
     throw invalid_argument("File " + fileName_ + " does not exist.");
   }
   fid_.open(fileName_);
+  if (!fid_.is_open()) {
+    throw runtime_error("File " + fileName_ + " cannot be opened.");
+  }
   fileOpen_ = true;
 }
 
-- 
2.43.0


From 4b8ccc03d0f3d1eac1bf5bf201962c84d4190ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 02/40] fix: refuse files that end inside of a section instead
 of looping or using half of it

---
 src/libcatnip/io/file_readers/filereader.cpp |  7 +++++
 src/libcatnip/io/file_readers/filereader.hpp |  2 ++
 src/libcatnip/io/file_readers/logreader.cpp  | 27 ++++++++++----------
 src/libcatnip/io/file_readers/punreader.cpp  |  6 ++++-
 4 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/libcatnip/io/file_readers/filereader.cpp b/src/libcatnip/io/file_readers/filereader.cpp
index 79aba7e..37a08b6 100644
--- a/src/libcatnip/io/file_readers/filereader.cpp
+++ b/src/libcatnip/io/file_readers/filereader.cpp
@@ -86,6 +86,13 @@ void FileReader::readSection_(string tag) {
   sectionReaders_[tag](ptr);
 }
 
+void FileReader::nextLine_(string &line) {
+  if (!getline(fid_, line) || fid_.eof()) {
+    throw runtime_error("File " + fileName_ +
+                        " ends or cannot be read inside of a section");
+  }
+}
+
 string FileReader::startSection_(const string &line) {
   for (pair<const string, set<string>> &tag_and_header : sectionHeaders_) {
     for (const string &header : tag_and_header.second) {
diff --git a/src/libcatnip/io/file_readers/filereader.hpp b/src/libcatnip/io/file_readers/filereader.hpp
index 91d374d..e166a9f 100644
--- a/src/libcatnip/io/file_readers/filereader.hpp
+++ b/src/libcatnip/io/file_readers/filereader.hpp
@@ -31,6 +31,8 @@ class FileReader {
   void checkSections_();
   void readSection_(std::string tag);
   std::string startSection_(const std::string &tag);
+  // Reads the next line of a section, throws if there is no complete line left
+  void nextLine_(std::string &line);
   std::string fileExt_() const;
   bool fileExist_() const;
   // Private attributes
diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index d5326f9..ec59a6a 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -109,8 +109,8 @@ void LogReader::AOFunctionSectionReader(void *ptr) {
   int atom_num = 1;
   string end_pattern = "         Condensed to atoms";
   string line;
-  getline(LR_ptr->fid_, line);
-  getline(LR_ptr->fid_, line);
+  LR_ptr->nextLine_(line);
+  LR_ptr->nextLine_(line);
   bool sectionEnd = false;
   while (sectionEnd == false) {
     istringstream iss(line);
@@ -130,7 +130,7 @@ void LogReader::AOFunctionSectionReader(void *ptr) {
     }
     LR_ptr->orb_[make_pair(atom_num, elemType)][orbType] = orbVals;
 
-    getline(LR_ptr->fid_, line);
+    LR_ptr->nextLine_(line);
     string elemType2 = "";
     elemType2.append(string(1, line.at(9)));
     elemType2.append(string(1, line.at(10)));
@@ -150,7 +150,7 @@ void LogReader::AOFunctionSectionReader(void *ptr) {
 
       LR_ptr->orb_[make_pair(atom_num, elemType)][orbType] = orbVals;
 
-      getline(LR_ptr->fid_, line);
+      LR_ptr->nextLine_(line);
 
       istringstream iss3(line);
       iss3 >> elemType2;
@@ -185,13 +185,13 @@ void LogReader::OverlapSectionReader(void *ptr) {
   bool endFirstSection = false;
   // Skip first line simply has column numbers
   string line;
-  getline(LR_ptr->fid_, line);
+  LR_ptr->nextLine_(line);
   string countC;
 
   // First group of coordinates will be stored in vector<vector<double>>
   vector<vector<double>> first_coefs;
   while (!endFirstSection) {
-    getline(LR_ptr->fid_, line);
+    LR_ptr->nextLine_(line);
     istringstream iss(line);
     iss >> countC;
     int countCint = stoi(countC);
@@ -239,7 +239,7 @@ void LogReader::OverlapSectionReader(void *ptr) {
 
     int sectionCoef = currentSectionStart;
     while (sectionCoef < countCoef) {
-      getline(LR_ptr->fid_, line);
+      LR_ptr->nextLine_(line);
       istringstream iss(line);
       string dummy;
       iss >> dummy;
@@ -263,7 +263,7 @@ void LogReader::OverlapSectionReader(void *ptr) {
     }
     ++section;
     currentSectionStart += 5;
-    getline(LR_ptr->fid_, line);
+    LR_ptr->nextLine_(line);
   }
   LR_ptr->S_ = mat_S;
   LOG("Success reading Overlap coefficients from .log file", 2);
@@ -277,7 +277,8 @@ void LogReader::ReadOrbEnergies(const string &orb_type) {
   homoLevel[orb_type] = 0;
   // May be multiple energy sections we only wanted the latest one
   OREnergies[orb_type].clear();
-  while (getline(fid_, line)) {
+  while (true) {
+    nextLine_(line);
 
     bool occFound;
     bool virtFound;
@@ -333,9 +334,9 @@ void LogReader::CoordSectionReader(void *ptr) {
       "----------------------------------";
   string line;
   // Skip the 2nd and third line
-  getline(LR_ptr->fid_, line);
-  getline(LR_ptr->fid_, line);
-  getline(LR_ptr->fid_, line);
+  LR_ptr->nextLine_(line);
+  LR_ptr->nextLine_(line);
+  LR_ptr->nextLine_(line);
 
   // While the line does not match the end of the table read in the coordinates
   while (!foundSubStrInStr(line, end_pattern)) {
@@ -343,7 +344,7 @@ void LogReader::CoordSectionReader(void *ptr) {
     X.push_back(stod(vec_str.at(3)));
     Y.push_back(stod(vec_str.at(4)));
     Z.push_back(stod(vec_str.at(5)));
-    getline(LR_ptr->fid_, line);
+    LR_ptr->nextLine_(line);
   }
   LR_ptr->xyz.push_back(X);
   LR_ptr->xyz.push_back(Y);
diff --git a/src/libcatnip/io/file_readers/punreader.cpp b/src/libcatnip/io/file_readers/punreader.cpp
index 0b5a92c..a8ce3d7 100644
--- a/src/libcatnip/io/file_readers/punreader.cpp
+++ b/src/libcatnip/io/file_readers/punreader.cpp
@@ -76,7 +76,7 @@ void PunReader::ReadCoef(const string &orb_type) {
     getline(fid_, line);
     vector<double> row;
     size_t current_count = 0;
-    while (!foundSubStrInStr(line, pattern)) {
+    while (fid_ && !foundSubStrInStr(line, pattern)) {
 
       if (first_row_set && current_count >= count) break;
       auto coef = readGausCoefLine(line);
@@ -86,6 +86,10 @@ void PunReader::ReadCoef(const string &orb_type) {
       }
       getline(fid_, line);
     }
+    if (fid_.bad() || row.empty() || (first_row_set && row.size() != count)) {
+      throw runtime_error("File " + fileName_ +
+                          " ends or cannot be read inside of an orbital");
+    }
     first_row_set = true;
     count = row.size();
     v_vec.push_back(row);
-- 
2.43.0


From c6a53cdc31e71def4f5c793761cb33cf84fdd5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 03/40] fix: do not use an uninitialised overlap matrix if the
 log holds none

---
 src/libcatnip/io/file_readers/logreader.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libcatnip/io/file_readers/logreader.hpp b/src/libcatnip/io/file_readers/logreader.hpp
index 46cde5d..0b32d98 100644
--- a/src/libcatnip/io/file_readers/logreader.hpp
+++ b/src/libcatnip/io/file_readers/logreader.hpp
@@ -2,6 +2,7 @@
 #ifndef _CATNIP_LOGREADER_HPP_
 #define _CATNIP_LOGREADER_HPP_
 
+#include <stdexcept>
 #include <vector>
 
 #include "../../matrix.hpp"
@@ -18,7 +19,10 @@ class LogReader : public FileReader {
  public:
   explicit LogReader(const std::string &str);
   orb_cont getOrbitalInfo() const { return orb_; }
-  Matrix *getOverlapMatrix() const { return S_; }
+  Matrix *getOverlapMatrix() const {
+    if (S_ == nullptr) throw std::invalid_argument("Overlap matrix not found");
+    return S_;
+  }
   std::vector<double> getOE(const std::string &orb_type) const {
     return OREnergies.at(orb_type);
   }
@@ -48,7 +52,7 @@ class LogReader : public FileReader {
   std::map<std::string, int> homoLevel;
   orb_cont orb_;
   // Overlap matrix
-  Matrix *S_;
+  Matrix *S_ = nullptr;
   std::map<std::string, std::vector<double>> OREnergies;
 
   std::vector<std::vector<double>> xyz;
-- 
2.43.0


From f989eaa5d313f531f9881b9bca5ac69dacfd5ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 04/40] fix: fail if the results could not be written to
 standard output

---
 src/tools/main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tools/main.cpp b/src/tools/main.cpp
index be9d395..03c5536 100644
--- a/src/tools/main.cpp
+++ b/src/tools/main.cpp
@@ -1,5 +1,6 @@
 #include <algorithm>
 #include <cctype>
+#include <cstdio>
 #include <cstdlib>
 #include <cstring>
 #include <fstream>
@@ -171,5 +172,9 @@ int main(int argc, const char *argv[]) {
     TC.calcJ(orbitaltypes, orbitalnums);
   }
 
+  // The values are only of use if they could be written
+  cout.flush();
+  if (!cout || ferror(stdout)) return 1;
+
   return 0;
 }
-- 
2.43.0


From 5f19c7ff0dd107970a4258479b558e02118d9eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 05/40] fix: a reader that is used again forgets the contents
 of the last read and closes its file if a read fails

---
 src/libcatnip/io/file_readers/filereader.cpp | 17 ++++++++++++++---
 src/libcatnip/io/file_readers/filereader.hpp |  3 +++
 src/libcatnip/io/file_readers/logreader.cpp  | 10 ++++++++++
 src/libcatnip/io/file_readers/logreader.hpp  |  1 +
 src/libcatnip/io/file_readers/punreader.hpp  |  1 +
 5 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/libcatnip/io/file_readers/filereader.cpp b/src/libcatnip/io/file_readers/filereader.cpp
index 37a08b6..44f1347 100644
--- a/src/libcatnip/io/file_readers/filereader.cpp
+++ b/src/libcatnip/io/file_readers/filereader.cpp
@@ -13,7 +13,21 @@ using namespace std;
 string FileReader::getExt() const { return fileExt_(); }
 
 void FileReader::read() {
+  clear_();
   open();
+  try {
+    readSections_();
+  } catch (...) {
+    clear_();
+    close();
+    throw;
+  }
+  close();
+}
+
+// Private member functions
+
+void FileReader::readSections_() {
   string line;
   while (getline(fid_, line)) {
     string tag = startSection_(line);
@@ -25,11 +39,8 @@ void FileReader::read() {
   if (fid_.bad() || !fid_.eof()) {
     throw runtime_error("Error while reading file " + fileName_);
   }
-  close();
 }
 
-// Private member functions
-
 void FileReader::open() {
   if (!fileExist_()) {
     throw invalid_argument("File " + fileName_ + " does not exist.");
diff --git a/src/libcatnip/io/file_readers/filereader.hpp b/src/libcatnip/io/file_readers/filereader.hpp
index e166a9f..11f2b18 100644
--- a/src/libcatnip/io/file_readers/filereader.hpp
+++ b/src/libcatnip/io/file_readers/filereader.hpp
@@ -26,9 +26,12 @@ class FileReader {
   // Private members
   void open();
   void close();
+  // Forget everything known from an earlier read
+  virtual void clear_(){};
   virtual void registerSections_();
   virtual void validFileName_(){};
   void checkSections_();
+  void readSections_();
   void readSection_(std::string tag);
   std::string startSection_(const std::string &tag);
   // Reads the next line of a section, throws if there is no complete line left
diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index ec59a6a..219d417 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -94,6 +94,14 @@ void LogReader::validFileName_() {
   }
 }
 
+void LogReader::clear_() {
+  homoLevel.clear();
+  orb_.clear();
+  S_ = nullptr;
+  OREnergies.clear();
+  xyz.clear();
+}
+
 vector<int> LogReader::getBasisFuncCount() {
   vector<int> basisFuncCount;
   for (auto values : orb_) {
@@ -106,6 +114,8 @@ void LogReader::AOFunctionSectionReader(void *ptr) {
   LOG("Reading atomic basis functions from .log file", 1);
   LogReader *LR_ptr = static_cast<LogReader *>(ptr);
 
+  // Clear contents only want the most uptodate populations
+  LR_ptr->orb_.clear();
   int atom_num = 1;
   string end_pattern = "         Condensed to atoms";
   string line;
diff --git a/src/libcatnip/io/file_readers/logreader.hpp b/src/libcatnip/io/file_readers/logreader.hpp
index 0b32d98..9eca41c 100644
--- a/src/libcatnip/io/file_readers/logreader.hpp
+++ b/src/libcatnip/io/file_readers/logreader.hpp
@@ -33,6 +33,7 @@ class LogReader : public FileReader {
   std::vector<std::vector<double>> getCoords() const { return xyz; }
 
  private:
+  virtual void clear_();
   virtual void registerSections_();
   virtual void validFileName_();
 
diff --git a/src/libcatnip/io/file_readers/punreader.hpp b/src/libcatnip/io/file_readers/punreader.hpp
index 73f8846..23137fd 100644
--- a/src/libcatnip/io/file_readers/punreader.hpp
+++ b/src/libcatnip/io/file_readers/punreader.hpp
@@ -16,6 +16,7 @@ class PunReader : public FileReader {
   bool restrictedShell() { return coefs.size() == 1; }
 
  private:
+  virtual void clear_() { coefs.clear(); }
   virtual void registerSections_();
   virtual void validFileName_();
 
-- 
2.43.0


From 667bc2b5dffd7d1a2ca6760d3d16d2ee573a82ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 06/40] fix: match atoms with coordinates that round to zero
 from below

---
 src/libcatnip/matrix.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index b206b70..80a7abf 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -171,7 +171,8 @@ Matrix Matrix_concatenate_cols(const Matrix &mat1, const Matrix &mat2) {
 string double_tos(double f, int nd) {
   ostringstream ostr;
   int tens = stod("1" + string(nd, '0'));
-  ostr << round(f * tens) / tens;
+  // Adding zero turns a negative zero into a positive one
+  ostr << round(f * tens) / tens + 0.0;
   return ostr.str();
 }
 
-- 
2.43.0


From 609f5aa597171b6b0bce06c49cb4232fb07681d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 07/40] fix: do not skip the beta orbitals that follow directly
 after the alpha orbitals in a .pun file

---
 src/libcatnip/io/file_readers/punreader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libcatnip/io/file_readers/punreader.cpp b/src/libcatnip/io/file_readers/punreader.cpp
index a8ce3d7..597da98 100644
--- a/src/libcatnip/io/file_readers/punreader.cpp
+++ b/src/libcatnip/io/file_readers/punreader.cpp
@@ -84,6 +84,7 @@ void PunReader::ReadCoef(const string &orb_type) {
         row.push_back(val);
         ++current_count;
       }
+      pos_ = fid_.tellg();
       getline(fid_, line);
     }
     if (fid_.bad() || row.empty() || (first_row_set && row.size() != count)) {
@@ -95,6 +96,8 @@ void PunReader::ReadCoef(const string &orb_type) {
     v_vec.push_back(row);
 
     allCoefsRead = !(foundSubStrInStr(line, orb_type));
+    // Reset the fid because Beta may come right after alpha
+    if (fid_ && allCoefsRead) fid_.seekg(pos_);
   }
 
   Matrix *Coefs = new Matrix(v_vec);
-- 
2.43.0


From 843c9f6612a1b234fb4ea640406b5c4f1cbeeef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:54 +0000
Subject: [PATCH 08/40] fix: read overlap matrices that are not followed by
 another block of numbers

---
 src/libcatnip/io/file_readers/logreader.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index 219d417..e626e5b 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -204,8 +204,7 @@ void LogReader::OverlapSectionReader(void *ptr) {
     LR_ptr->nextLine_(line);
     istringstream iss(line);
     iss >> countC;
-    int countCint = stoi(countC);
-    if (countCint != (countCoef + 1)) {
+    if (countC != to_string(countCoef + 1)) {
       endFirstSection = true;
     } else {
       ++countCoef;
-- 
2.43.0


From b1dc01a90d5e02a043622b52ac29dd00d683308f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:54 +0000
Subject: [PATCH 09/40] fix: release matrix elements with the array form of
 delete

---
 src/libcatnip/matrix.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 80a7abf..834ed23 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -280,7 +280,6 @@ Matrix::Matrix(vector<vector<double>> vv_data) {
   cols = vv_data.at(0).size();
   shel = 1;
   elem = new double[rows * cols];
-  elem = new double[rows * cols];
 
   int r = 1;
   for (auto v : vv_data) {
@@ -417,7 +416,7 @@ int Matrix::resize(int r, int c) {
     }
   }
 
-  delete elem;
+  delete[] elem;
   rows = r;
   cols = c;
   shel = 1;
@@ -489,7 +488,7 @@ void Matrix::set_rows(int r) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     rows = r;
     elem = temp;
   } else if (r < rows) {
@@ -504,7 +503,7 @@ void Matrix::set_rows(int r) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     rows = r;
     elem = temp;
   }
@@ -546,7 +545,7 @@ void Matrix::set_cols(int c) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     cols = c;
     elem = temp;
   } else if (c < cols) {
@@ -561,7 +560,7 @@ void Matrix::set_cols(int c) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     cols = c;
     elem = temp;
   }
@@ -586,7 +585,7 @@ void Matrix::set_shel(int s) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     shel = s;
     elem = temp;
   } else if (s < shel) {
@@ -601,7 +600,7 @@ void Matrix::set_shel(int s) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     shel = s;
     elem = temp;
   }
-- 
2.43.0


From 6929f5786d10bb09ee9ebdfa617ac2918038017b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:54 +0000
Subject: [PATCH 10/40] fix: consume the value that follows a switch

---
 src/libcatnip/io/argumentparser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index 0615d2a..a3e6981 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -466,6 +466,7 @@ void ArgumentParser::parseArg_(size_t& index, vector<string> arguments) {
         } else {
           int_values_[flag] = 0;
         }
+        ++index;
       }
     } else {
       unrecognized = false;
-- 
2.43.0


From d0e6b287edc3d7ba41aae188323527daea0ffc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:54 +0000
Subject: [PATCH 11/40] fix: forget that an earlier file existed when the next
 one does not

---
 src/libcatnip/io/arguments/properties/propertyfileexist.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libcatnip/io/arguments/properties/propertyfileexist.cpp b/src/libcatnip/io/arguments/properties/propertyfileexist.cpp
index df1bbbc..093eb6a 100644
--- a/src/libcatnip/io/arguments/properties/propertyfileexist.cpp
+++ b/src/libcatnip/io/arguments/properties/propertyfileexist.cpp
@@ -14,6 +14,7 @@ PropertyFileExist::PropertyFileExist(void) {
 
 PropertyFileExist::PropertyFileExist(int fileMustExist) {
   setPropOption_("FILE_MUST_EXIST", fileMustExist);
+  setPropOption_("FILE_DOES_EXIST", 0);
 }
 
 vector<string> PropertyFileExist::getOpts_(void) const {
@@ -29,6 +30,7 @@ bool PropertyFileExist::fileExist(const string& fileNamePath) const {
 bool PropertyFileExist::propValid(const string& fileNamePath) {
   if (getPropOption("FILE_MUST_EXIST")) {
     if (!fileExist(fileNamePath)) {
+      setPropOption_("FILE_DOES_EXIST", 0);
       string err = "" + fileNamePath + " does not exist";
       throw invalid_argument(err);
     }
@@ -36,6 +38,8 @@ bool PropertyFileExist::propValid(const string& fileNamePath) {
   } else {
     if (fileExist(fileNamePath)) {
       setPropOption_("FILE_DOES_EXIST", 1);
+    } else {
+      setPropOption_("FILE_DOES_EXIST", 0);
     }
   }
   return true;
-- 
2.43.0


From e33f3cf624b916f42a6c49b312697b7b49bef793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:54 +0000
Subject: [PATCH 12/40] fix: read files that have more than one dot in their
 name

---
 src/libcatnip/io/file_readers/filereader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/io/file_readers/filereader.cpp b/src/libcatnip/io/file_readers/filereader.cpp
index 44f1347..98e7ab2 100644
--- a/src/libcatnip/io/file_readers/filereader.cpp
+++ b/src/libcatnip/io/file_readers/filereader.cpp
@@ -82,7 +82,7 @@ void FileReader::checkSections_() {
 string FileReader::fileExt_() const {
   string path = lastStringInPath(fileName_);
   path = trimmed(path);
-  auto index = path.find(".");
+  auto index = path.find_last_of(".");
   if (index == string::npos) throw invalid_argument("File has no extension");
   return path.substr(index);
 }
-- 
2.43.0


From 04ba3e7cdc50bf4ad0e8f409eccb09588e59c847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:54 +0000
Subject: [PATCH 13/40] fix: find companion files in paths that hold blanks

---
 src/libcatnip/io/io.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/libcatnip/io/io.cpp b/src/libcatnip/io/io.cpp
index 28756bc..11cfe84 100644
--- a/src/libcatnip/io/io.cpp
+++ b/src/libcatnip/io/io.cpp
@@ -358,14 +358,17 @@ unique_ptr<Parameters> prepareParameters(unique_ptr<ArgumentParser>& ArgParse) {
     prop = "PROPERTY_SISTER_FILE";
     opt = "SISTER_FILE_EXISTS";
     auto line = ArgParse->getFlagArgOptValue(flag, argu, prop, opt);
-    opt = "SISTER_FILE_PATH_NAME";
+    opt = "ALLOWED_SISTER_FILE_EXT";
     auto line2 = ArgParse->getFlagArgOptValue(flag, argu, prop, opt);
     auto sisters_exist = splitSt(line);
-    vector<string> sister_file_paths = splitSt(line2);
+    vector<string> sister_file_exts = splitSt(line2);
     int countFiles = 0;
     for (auto sister_exists : sisters_exist) {
       if (sister_exists.compare("true") == 0) {
-        flag_sister_arg[flag_sister] = sister_file_paths.at(countFiles);
+        // The path may hold blanks, the extensions do not
+        flag_sister_arg[flag_sister] =
+            grabStrBeforeLastOccurance(ArgParse->getStr(flag), ".") +
+            sister_file_exts.at(countFiles);
       }
       ++countFiles;
     }
-- 
2.43.0


From c0d490146817e575c1e7f6821c6c2dbd305a766b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:54 +0000
Subject: [PATCH 14/40] fix: do not work with half of a string if memory runs
 out while it is converted

---
 src/libcatnip/matrix.cpp         | 3 +++
 src/libcatnip/string_support.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 834ed23..411cbcc 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -2,6 +2,7 @@
 #include <cstdlib>
 #include <exception>
 #include <iostream>
+#include <new>
 #include <sstream>
 #include <stdexcept>
 #include <stdio.h>
@@ -173,6 +174,8 @@ string double_tos(double f, int nd) {
   int tens = stod("1" + string(nd, '0'));
   // Adding zero turns a negative zero into a positive one
   ostr << round(f * tens) / tens + 0.0;
+  // Insertion hides exceptions, digits could be missing
+  if (!ostr) throw bad_alloc();
   return ostr.str();
 }
 
diff --git a/src/libcatnip/string_support.cpp b/src/libcatnip/string_support.cpp
index 1c082e2..6d5cfeb 100644
--- a/src/libcatnip/string_support.cpp
+++ b/src/libcatnip/string_support.cpp
@@ -5,6 +5,7 @@
 #include <istream>
 #include <iterator>
 #include <list>
+#include <new>
 #include <sstream>
 #include <string>
 #include <vector>
@@ -46,6 +47,8 @@ vector<string> splitSt(const string & input) {
   list<string> tokens;
   copy(istream_iterator<string>(iss), istream_iterator<string>(),
        back_inserter(tokens));
+  // Extraction hides exceptions, items could be missing
+  if (iss.bad()) throw bad_alloc();
 
   vector<string> values;
   for (std::string item : tokens) {
-- 
2.43.0


From 98f42bf8ea628f07f1d78f08e8b639271f2a9847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:20 +0000
Subject: [PATCH 15/40] fix: refuse monomers and energies that do not fit the
 dimer and the orbitals

---
 src/libcatnip/qc_functions.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/libcatnip/qc_functions.cpp b/src/libcatnip/qc_functions.cpp
index 963c6fd..dbb84b4 100644
--- a/src/libcatnip/qc_functions.cpp
+++ b/src/libcatnip/qc_functions.cpp
@@ -612,6 +612,18 @@ TransferComplex::TransferComplex(Matrix *mat1Coef, Matrix *mat2Coef,
           "Counter poise has not been specified and your "
           "monomers have more basis function cols than your dimer");
     }
+    if (total_cols < matPCoef->get_cols()) {
+      throw invalid_argument(
+          "Counter poise has not been specified and your "
+          "monomers have fewer basis function cols than your dimer");
+    }
+  }
+  if (MOs1.first != mat1Coef->get_rows() ||
+      MOs2.first != mat2Coef->get_rows() ||
+      matPOE->get_rows() != matPCoef->get_rows()) {
+    throw invalid_argument(
+        "There must be as many orbital energies as there are "
+        "orbitals");
   }
 
   mat_1_Coef = mat1Coef;
-- 
2.43.0


From f131a265994c78afd4a5bc6db4fa5627a1c63f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:20 +0000
Subject: [PATCH 16/40] fix: refuse monomers whose atoms do not line up with
 those of the dimer

---
 src/libcatnip/qc_functions.cpp | 41 +++++++++++++++++++++++++++++++++-
 src/libcatnip/qc_functions.hpp |  3 ++-
 src/tools/main.cpp             |  3 ++-
 3 files changed, 44 insertions(+), 3 deletions(-)

diff --git a/src/libcatnip/qc_functions.cpp b/src/libcatnip/qc_functions.cpp
index dbb84b4..d091c37 100644
--- a/src/libcatnip/qc_functions.cpp
+++ b/src/libcatnip/qc_functions.cpp
@@ -574,6 +574,37 @@ Matrix *unscramble_S(const std::vector<int> &matchDimerA,
   return S_new;
 }
 
+// Every atom must have a counterpart with the same number of basis functions,
+// and all of the counterparts must be used once. If the basis functions of the
+// atoms are unknown only the counterparts are checked.
+void checkMatch(const vector<int> &match, const vector<int> &basisFunc,
+                const vector<int> &basisFuncMatched, Matrix *CoefMatched) {
+
+  vector<bool> used(basisFuncMatched.size(), false);
+  bool valid = match.size() == used.size();
+  for (size_t i = 0; valid && i < match.size(); ++i) {
+    int counterpart = match.at(i) - 1;
+    if (counterpart < 0 || counterpart >= static_cast<int>(used.size()) ||
+        used.at(counterpart)) {
+      valid = false;
+    } else {
+      used.at(counterpart) = true;
+      if (!basisFunc.empty() &&
+          (basisFunc.size() != match.size() ||
+           basisFunc.at(i) != basisFuncMatched.at(counterpart))) {
+        valid = false;
+      }
+    }
+  }
+  int total = 0;
+  for (auto count : basisFuncMatched) total += count;
+  if (!valid || total != CoefMatched->get_cols()) {
+    throw invalid_argument(
+        "The atoms and basis functions of the monomers and the dimer do not "
+        "line up");
+  }
+}
+
 }  // namespace catnip
 
 using namespace catnip;
@@ -639,7 +670,8 @@ void TransferComplex::unscramble(const Matrix &coord_1_mat,
                                  const Matrix &coord_2_mat,
                                  const Matrix &coord_P_mat,
                                  const std::vector<int> &basisP,
-                                 const std::vector<int> &basis2) {
+                                 const std::vector<int> &basis2,
+                                 const std::vector<int> &basis1) {
 
   unscrambled = true;
 
@@ -650,6 +682,7 @@ void TransferComplex::unscramble(const Matrix &coord_1_mat,
   if (counterPoise_) {
     vector<int> match_1_2 = coord_1_mat.matchCol(coord_2_mat, sig_fig);
 
+    checkMatch(match_1_2, basis1, basis2, mat_2_Coef);
     LOG("Counter Poise unscrambling matrix 2 with respect to matrix 1", 2);
     auto unscrambled_2_Coef = unscramble_Coef(match_1_2, basis2, mat_2_Coef);
 
@@ -657,6 +690,7 @@ void TransferComplex::unscramble(const Matrix &coord_1_mat,
 
     vector<int> match_1_P = coord_1_mat.matchCol(coord_P_mat, sig_fig);
 
+    checkMatch(match_1_P, basis1, basisP, mat_P_Coef);
     auto unscrambled_P_Coef = unscramble_Coef(match_1_P, basisP, mat_P_Coef);
 
     this->mat_P_Coef = unscrambled_P_Coef;
@@ -673,6 +707,11 @@ void TransferComplex::unscramble(const Matrix &coord_1_mat,
     // Stores the rows in P that match 2
     vector<int> match_2_P = coord_2_mat.matchCol(coord_P_mat, sig_fig);
 
+    vector<int> match_P = match_1_P;
+    match_P.insert(match_P.end(), match_2_P.begin(), match_2_P.end());
+    vector<int> basis = basis1;
+    if (!basis.empty()) basis.insert(basis.end(), basis2.begin(), basis2.end());
+    checkMatch(match_P, basis, basisP, mat_P_Coef);
     LOG("Unscrambling dimer matrix with respect to matrix 1 and 2", 2);
     auto unscrambled_P_Coef =
         unscramble_Coef(match_1_P, match_2_P, basisP, mat_P_Coef);
diff --git a/src/libcatnip/qc_functions.hpp b/src/libcatnip/qc_functions.hpp
index e8bc1a6..824552a 100644
--- a/src/libcatnip/qc_functions.hpp
+++ b/src/libcatnip/qc_functions.hpp
@@ -33,7 +33,8 @@ class TransferComplex {
 
   void unscramble(const Matrix& coord_1_mat, const Matrix& coord_2_mat,
                   const Matrix& coord_P_mat, const std::vector<int>& basisP,
-                  const std::vector<int>& basis2);
+                  const std::vector<int>& basis2,
+                  const std::vector<int>& basis1 = {});
 
   // Orbital type and a map of the corresponding number
   // E.g.
diff --git a/src/tools/main.cpp b/src/tools/main.cpp
index 03c5536..9099c14 100644
--- a/src/tools/main.cpp
+++ b/src/tools/main.cpp
@@ -133,7 +133,8 @@ int main(int argc, const char *argv[]) {
     // we cannot automatically determine what the transfer integral is
     if (basis_1.size() != 0 && basis_2.size() != 0 && basis_P.size() != 0) {
       LOG("Unscrambling matrices", 1);
-      TC.unscramble(coord_1_mat, coord_2_mat, coord_P_mat, basis_P, basis_2);
+      TC.unscramble(coord_1_mat, coord_2_mat, coord_P_mat, basis_P, basis_2,
+                    basis_1);
     }
 
     cout << endl;
-- 
2.43.0


From f6544b89bcbe8645319766d359db6215b0ed98da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:29 +0000
Subject: [PATCH 17/40] fix: do not loop on a header of orbital energies that
 is followed by none

---
 src/libcatnip/io/file_readers/logreader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index e626e5b..fad31b5 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -309,6 +309,11 @@ void LogReader::ReadOrbEnergies(const string &orb_type) {
     }
     pos_ = fid_.tellg();
   }
+  // Without any energies it would go on at the header again
+  if (OREnergies[orb_type].empty()) {
+    throw runtime_error("File " + fileName_ + " holds no readable " + orb_type +
+                        " orbital energies");
+  }
   // Reset the fid because Beta will come right after alpha
   fid_.seekg(pos_);
   LOG("Success reading Orbital Energies from .log file", 2);
-- 
2.43.0


From afa38c2c6e7ee05fa7d2a8c78e60c7a7ca22e59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:49 +0000
Subject: [PATCH 18/40] fix: refuse .pun files whose last beta orbital is cut
 off

---
 src/libcatnip/io/file_readers/punreader.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/libcatnip/io/file_readers/punreader.cpp b/src/libcatnip/io/file_readers/punreader.cpp
index 597da98..d987e05 100644
--- a/src/libcatnip/io/file_readers/punreader.cpp
+++ b/src/libcatnip/io/file_readers/punreader.cpp
@@ -100,6 +100,15 @@ void PunReader::ReadCoef(const string &orb_type) {
     if (fid_ && allCoefsRead) fid_.seekg(pos_);
   }
 
+  // Both spins are expanded in the same basis functions
+  for (const pair<const string, Matrix *> &other : coefs) {
+    if (other.first != orb_type &&
+        static_cast<size_t>(other.second->get_cols()) != count) {
+      throw runtime_error("File " + fileName_ +
+                          " holds alpha and beta orbitals of unequal length");
+    }
+  }
+
   Matrix *Coefs = new Matrix(v_vec);
   coefs[orb_type] = Coefs;
   LOG("Success reading atomic orbital coefficients from .pun file.", 2);
-- 
2.43.0


From 70e6685ace035346e30244e856619db83d226d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 19/40] fix: close the file if memory runs out while it is
 opened

---
 src/libcatnip/io/file_readers/filereader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/io/file_readers/filereader.cpp b/src/libcatnip/io/file_readers/filereader.cpp
index 98e7ab2..16c3e7b 100644
--- a/src/libcatnip/io/file_readers/filereader.cpp
+++ b/src/libcatnip/io/file_readers/filereader.cpp
@@ -14,8 +14,8 @@ string FileReader::getExt() const { return fileExt_(); }
 
 void FileReader::read() {
   clear_();
-  open();
   try {
+    open();
     readSections_();
   } catch (...) {
     clear_();
-- 
2.43.0


From a47c526bfe8b202b2c2fb17306af6669f52876f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 20/40] fix: refuse populations of the monomers that do not add
 up to their own orbitals

---
 src/libcatnip/qc_functions.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libcatnip/qc_functions.cpp b/src/libcatnip/qc_functions.cpp
index d091c37..0b62186 100644
--- a/src/libcatnip/qc_functions.cpp
+++ b/src/libcatnip/qc_functions.cpp
@@ -712,6 +712,13 @@ void TransferComplex::unscramble(const Matrix &coord_1_mat,
     vector<int> basis = basis1;
     if (!basis.empty()) basis.insert(basis.end(), basis2.begin(), basis2.end());
     checkMatch(match_P, basis, basisP, mat_P_Coef);
+    int total_2 = 0;
+    for (auto count : basis2) total_2 += count;
+    if (total_2 != mat_2_Coef->get_cols()) {
+      throw invalid_argument(
+          "The basis functions of the atoms of monomer 2 do not add up to "
+          "those of its orbitals");
+    }
     LOG("Unscrambling dimer matrix with respect to matrix 1 and 2", 2);
     auto unscrambled_P_Coef =
         unscramble_Coef(match_1_P, match_2_P, basisP, mat_P_Coef);
-- 
2.43.0


From 5b65db5aa666b5c3cbb3e33078b1a93e692c9a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 21/40] fix: do not read on in a .pun file that grows after its
 end was seen

---
 src/libcatnip/io/file_readers/punreader.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libcatnip/io/file_readers/punreader.cpp b/src/libcatnip/io/file_readers/punreader.cpp
index d987e05..6552f3f 100644
--- a/src/libcatnip/io/file_readers/punreader.cpp
+++ b/src/libcatnip/io/file_readers/punreader.cpp
@@ -97,7 +97,14 @@ void PunReader::ReadCoef(const string &orb_type) {
 
     allCoefsRead = !(foundSubStrInStr(line, orb_type));
     // Reset the fid because Beta may come right after alpha
-    if (fid_ && allCoefsRead) fid_.seekg(pos_);
+    if (fid_ && allCoefsRead) {
+      if (!fid_.eof()) {
+        fid_.seekg(pos_);
+      } else if (!startSection_(line).empty()) {
+        throw runtime_error("File " + fileName_ +
+                            " ends or cannot be read inside of an orbital");
+      }
+    }
   }
 
   // Both spins are expanded in the same basis functions
-- 
2.43.0


From 148eb2adcb0a0a3951b1ad351edd1e11c2939fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:22 +0000
Subject: [PATCH 22/40] fix: leave a TransferComplex as it was when unscramble
 fails

An unscramble that failed half way (atoms that do not match, memory that
runs out) had already replaced some of the matrices and had switched off
the warning of calcJ, so that later couplings were wrong without notice.
---
 src/libcatnip/qc_functions.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/libcatnip/qc_functions.cpp b/src/libcatnip/qc_functions.cpp
index 0b62186..363ad7b 100644
--- a/src/libcatnip/qc_functions.cpp
+++ b/src/libcatnip/qc_functions.cpp
@@ -673,8 +673,6 @@ void TransferComplex::unscramble(const Matrix &coord_1_mat,
                                  const std::vector<int> &basis2,
                                  const std::vector<int> &basis1) {
 
-  unscrambled = true;
-
   const int sig_fig = 4;
 
   // If dealing with counter poise correction may also need to unscramble
@@ -686,17 +684,17 @@ void TransferComplex::unscramble(const Matrix &coord_1_mat,
     LOG("Counter Poise unscrambling matrix 2 with respect to matrix 1", 2);
     auto unscrambled_2_Coef = unscramble_Coef(match_1_2, basis2, mat_2_Coef);
 
-    this->mat_2_Coef = unscrambled_2_Coef;
-
     vector<int> match_1_P = coord_1_mat.matchCol(coord_P_mat, sig_fig);
 
     checkMatch(match_1_P, basis1, basisP, mat_P_Coef);
     auto unscrambled_P_Coef = unscramble_Coef(match_1_P, basisP, mat_P_Coef);
 
-    this->mat_P_Coef = unscrambled_P_Coef;
-
     auto unscrambled_S = unscramble_S(match_1_P, basisP, mat_S);
 
+    // Only now can nothing fail any more, a complex that was unscrambled in
+    // part would give wrong values
+    this->mat_2_Coef = unscrambled_2_Coef;
+    this->mat_P_Coef = unscrambled_P_Coef;
     this->mat_S = unscrambled_S;
 
   } else {
@@ -723,12 +721,13 @@ void TransferComplex::unscramble(const Matrix &coord_1_mat,
     auto unscrambled_P_Coef =
         unscramble_Coef(match_1_P, match_2_P, basisP, mat_P_Coef);
 
-    this->mat_P_Coef = unscrambled_P_Coef;
-
     auto unscrambled_S = unscramble_S(match_1_P, match_2_P, basisP, mat_S);
 
+    this->mat_P_Coef = unscrambled_P_Coef;
     this->mat_S = unscrambled_S;
   }
+
+  unscrambled = true;
 }
 
 double TransferComplex::calcJ(const map<string, string> &orbitaltype,
-- 
2.43.0


From 4dd0e206b5b5d9d1663e5b75811ca90b51f290c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:01 +0000
Subject: [PATCH 23/40] fix: copy the elements when a matrix is copied

Copies shared their elements: changing one changed the other, and resizing
one left the other with released memory.
---
 src/libcatnip/matrix.cpp | 16 +++++++++++++---
 src/libcatnip/matrix.hpp |  1 +
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 411cbcc..a229fde 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -366,6 +366,16 @@ Matrix::Matrix(const int r, const int c, const int s) {
   }
 }
 
+Matrix::Matrix(const Matrix &m) {
+  rows = m.rows;
+  cols = m.cols;
+  shel = m.shel;
+  elem = new double[rows * cols * shel];
+  for (int i = 0; i < rows * cols * shel; i++) {
+    elem[i] = m.elem[i];
+  }
+}
+
 int Matrix::resize(int r, int c) {
 
   if (r < 1) {
@@ -900,15 +910,15 @@ Matrix Matrix::invert() const{
     exit(1);
   }
 
-  Matrix *mat2 = new Matrix(this->get_cols(), this->get_rows());
+  Matrix mat2(this->get_cols(), this->get_rows());
 
   for (int i = 1; i <= this->get_rows(); i++) {
     for (int j = 1; j <= this->get_cols(); j++) {
       double val = this->get_elem(i, j);
-      (*mat2).set_elem(val, j, i);
+      mat2.set_elem(val, j, i);
     }
   }
-  return *mat2;
+  return mat2;
 }
 
 Matrix Matrix::getRow(int R) const{
diff --git a/src/libcatnip/matrix.hpp b/src/libcatnip/matrix.hpp
index cce1c3e..f428fac 100644
--- a/src/libcatnip/matrix.hpp
+++ b/src/libcatnip/matrix.hpp
@@ -22,6 +22,7 @@ class Matrix {
   explicit Matrix(const int r);
   Matrix(const int r, const int c);
   Matrix(const int r, const int c, const int s);
+  Matrix(const Matrix &m);
 
   Matrix &operator=(const Matrix &m);
   // manipulators
-- 
2.43.0


From 7e3efa085d080881b3c0783968058f7b65cdb45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:01 +0000
Subject: [PATCH 24/40] fix: assign all shelves of a matrix

---
 src/libcatnip/matrix.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index a229fde..bdfe8e0 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -439,13 +439,17 @@ int Matrix::resize(int r, int c) {
 }
 
 Matrix &Matrix::operator=(const Matrix &m) {
-  this->resize(m.get_rows(), m.get_cols());
+  if (this == &m) return *this;
 
-  for (int i = 1; i <= m.get_rows(); ++i) {
-    for (int j = 1; j <= m.get_cols(); ++j) {
-      this->set_elem(m.get_elem(i, j), i, j);
-    }
+  double *temp = new double[m.rows * m.cols * m.shel];
+  for (int i = 0; i < m.rows * m.cols * m.shel; ++i) {
+    temp[i] = m.elem[i];
   }
+  delete[] elem;
+  rows = m.rows;
+  cols = m.cols;
+  shel = m.shel;
+  elem = temp;
   return *this;
 }
 
-- 
2.43.0


From 373b86672e087694423bbb4a8031bc3787524618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:01 +0000
Subject: [PATCH 25/40] fix: keep the elements of a matrix in place when its
 size is set

set_rows, set_cols and set_shel cleared the elements when the size grew, and
set_cols and set_shel addressed the new elements with the old size.
---
 src/libcatnip/matrix.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index bdfe8e0..06a1098 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -497,7 +497,7 @@ void Matrix::set_rows(int r) {
     for (int i = 1; i <= r; i++) {
       for (int j = 1; j <= cols; j++) {
         for (int k = 1; k <= shel; k++) {
-          if (r <= rows) {
+          if (i <= rows) {
             temp[index(i, j, k)] = elem[index(i, j, k)];
           } else {
             temp[index(i, j, k)] = 0;
@@ -554,10 +554,11 @@ void Matrix::set_cols(int c) {
     for (int i = 1; i <= rows; i++) {
       for (int j = 1; j <= c; j++) {
         for (int k = 1; k <= shel; k++) {
-          if (c <= cols) {
-            temp[index(i, j, k)] = elem[index(i, j, k)];
+          int at = (i - 1) * c * shel + (j - 1) * shel + k - 1;
+          if (j <= cols) {
+            temp[at] = elem[index(i, j, k)];
           } else {
-            temp[index(i, j, k)] = 0;
+            temp[at] = 0;
           }
         }
       }
@@ -573,7 +574,8 @@ void Matrix::set_cols(int c) {
     for (int i = 1; i <= rows; i++) {
       for (int j = 1; j <= c; j++) {
         for (int k = 1; k <= shel; k++) {
-          temp[index(i, j, k)] = elem[index(i, j, k)];
+          temp[(i - 1) * c * shel + (j - 1) * shel + k - 1] =
+              elem[index(i, j, k)];
         }
       }
     }
@@ -594,10 +596,11 @@ void Matrix::set_shel(int s) {
     for (int i = 1; i <= rows; i++) {
       for (int j = 1; j <= cols; j++) {
         for (int k = 1; k <= s; k++) {
-          if (s <= shel) {
-            temp[index(i, j, k)] = elem[index(i, j, k)];
+          int at = (i - 1) * cols * s + (j - 1) * s + k - 1;
+          if (k <= shel) {
+            temp[at] = elem[index(i, j, k)];
           } else {
-            temp[index(i, j, k)] = 0;
+            temp[at] = 0;
           }
         }
       }
@@ -613,7 +616,8 @@ void Matrix::set_shel(int s) {
     for (int i = 1; i <= rows; i++) {
       for (int j = 1; j <= cols; j++) {
         for (int k = 1; k <= s; k++) {
-          temp[index(i, j, k)] = elem[index(i, j, k)];
+          temp[(i - 1) * cols * s + (j - 1) * s + k - 1] =
+              elem[index(i, j, k)];
         }
       }
     }
-- 
2.43.0


From 3754b3d1a73bc9a6eda33ea3e51e082419fb211d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:01 +0000
Subject: [PATCH 26/40] fix: a column has as many elements as the matrix has
 rows

---
 src/libcatnip/matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 06a1098..911811b 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -474,7 +474,7 @@ void Matrix::set_row(vector<double> row, int r) {
 
 void Matrix::set_col(vector<double> col, int c) {
 
-  if (get_cols() != static_cast<int>(col.size())) {
+  if (get_rows() != static_cast<int>(col.size())) {
     throw invalid_argument("vector is not the same size as matrix");
   }
   for (int i = 1; i <= get_rows(); ++i) {
@@ -955,7 +955,7 @@ Matrix Matrix::getCol(int C) const {
     printf(" because mat has only %d cols\n.", this->get_cols());
     exit(1);
   }
-  Matrix mat2(this->get_cols(), 1, this->get_shel());
+  Matrix mat2(this->get_rows(), 1, this->get_shel());
 
   for (int i = 1; i <= this->get_rows(); i++) {
     for (int k = 1; k <= this->get_shel(); k++) {
-- 
2.43.0


From 1f26d1c33de146ad83055574a6caf9e2a2f6e7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:15 +0000
Subject: [PATCH 27/40] fix: do not lose a row or column if memory runs out
 while it is moved

---
 src/libcatnip/matrix.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 911811b..cde9b8a 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -7,6 +7,7 @@
 #include <stdexcept>
 #include <stdio.h>
 #include <string>
+#include <utility>
 #include <vector>
 
 #include "matrix.hpp"
@@ -794,8 +795,8 @@ void Matrix::swap_row(int r_from, int r_to) {
 
   vector<double> row_f = get_row(r_from);
   vector<double> row_t = get_row(r_to);
-  set_row(row_f, r_to);
-  set_row(row_t, r_from);
+  set_row(std::move(row_f), r_to);
+  set_row(std::move(row_t), r_from);
 }
 
 void Matrix::swap_col(int c_from, int c_to) {
@@ -803,8 +804,8 @@ void Matrix::swap_col(int c_from, int c_to) {
 
   vector<double> col_f = get_col(c_from);
   vector<double> col_t = get_col(c_to);
-  set_col(col_f, c_to);
-  set_col(col_t, c_from);
+  set_col(std::move(col_f), c_to);
+  set_col(std::move(col_t), c_from);
 }
 
 void Matrix::move_row(int r_from, int r_to) {
@@ -828,7 +829,7 @@ void Matrix::move_row(int r_from, int r_to) {
     }
   }
   // Insert the row we took out
-  this->set_row(row, r_to);
+  this->set_row(std::move(row), r_to);
 }
 
 void Matrix::move_col(int c_from, int c_to) {
@@ -852,7 +853,7 @@ void Matrix::move_col(int c_from, int c_to) {
     }
   }
   // Insert the row we took out
-  set_col(col, c_to);
+  set_col(std::move(col), c_to);
 }
 
 vector<int> Matrix::matchRow(const Matrix & mat, int sf) {
-- 
2.43.0


From 3173fc19f91bc5cf75635f2651695b0351a2fc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:15 +0000
Subject: [PATCH 28/40] fix: print the elements of every shelf of a matrix

---
 src/libcatnip/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index cde9b8a..04c45ff 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -198,7 +198,7 @@ std::ostream &operator<<(std::ostream &out, Matrix &mat) {
     for (i = 1; i <= mat.get_rows(); i++) {
       out << "Row " << i << "\t";
       for (j = 1; j <= mat.get_cols(); j++) {
-        out << mat.get_elem(i, j) << "\t";
+        out << mat.get_elem(i, j, k) << "\t";
       }
       out << "\n";
     }
-- 
2.43.0


From 550f6237e5e45da89bc9e439525995814cb92d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:15 +0000
Subject: [PATCH 29/40] fix: refuse a second declaration of a double argument

It replaced the first one and its limits.
---
 src/libcatnip/io/argumentparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index a3e6981..a09d200 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -183,7 +183,7 @@ void ArgumentParser::addFlagArg(string flag, string argname) {
           flag);
     }
   } else if (argname.compare("ARGUMENT_DOUBLE") == 0) {
-    if (file_arg_.count(flag) == 0) {
+    if (double_arg_.count(flag) == 0) {
       ArgumentDouble* ArDouble = new ArgumentDouble;
       double_arg_[flag] = ArDouble;
     } else {
-- 
2.43.0


From 4d623da51091af34819382c0449687e6945fe4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:15 +0000
Subject: [PATCH 30/40] fix: show the usage of options without an abbreviation

The width of the placeholder was not counted, so the padding was computed as
a huge unsigned number and printed without end.
---
 src/libcatnip/io/argumentparser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index a09d200..9504ac8 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -89,6 +89,9 @@ ArgumentParser::ArgumentParser(set<vector<string>> flags) {
     if (!flag_name) {
       throw invalid_argument("You have failed to provide the full flag name");
     }
+    if (!abbreviation && short_flag.size() > maxShortFlagSize) {
+      maxShortFlagSize = short_flag.size();
+    }
     flags_[full_flag] = make_pair(short_flag, desc);
   }
 }
-- 
2.43.0


From c08cd31d5fd2f33b275970b54cd7dce04009f212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:32 +0000
Subject: [PATCH 31/40] fix: forget the earlier text of a switch that is given
 without a value

getStr kept answering with the default or an earlier OFF while getInt said 1.
---
 src/libcatnip/io/argumentparser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index 9504ac8..50277ac 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -458,6 +458,7 @@ void ArgumentParser::parseArg_(size_t& index, vector<string> arguments) {
         } else {
           unrecognized = false;
           int_values_[flag] = 1;
+          string_values_.erase(flag);
         }
       } else {
         string argument = arguments.at(index + 1);
@@ -474,6 +475,7 @@ void ArgumentParser::parseArg_(size_t& index, vector<string> arguments) {
     } else {
       unrecognized = false;
       int_values_[flag] = 1;
+      string_values_.erase(flag);
     }
   }
   if (int_arg_.count(flag) != 0) {
-- 
2.43.0


From 96ebd27a34c718e1d5630f3a2667611ce65eb216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:32 +0000
Subject: [PATCH 32/40] fix: keep the old value of a property option if memory
 runs out while it is set

Assigning a set that cannot be completed left a part of it, or nothing.
---
 src/libcatnip/io/arguments/properties/propertyobject.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libcatnip/io/arguments/properties/propertyobject.hpp b/src/libcatnip/io/arguments/properties/propertyobject.hpp
index 584c662..5859c15 100644
--- a/src/libcatnip/io/arguments/properties/propertyobject.hpp
+++ b/src/libcatnip/io/arguments/properties/propertyobject.hpp
@@ -9,6 +9,7 @@
 #include <sstream>
 #include <stdexcept>
 #include <string>
+#include <utility>
 #include <vector>
 
 namespace catnip {
@@ -34,7 +35,8 @@ class PropertyObject {
       options_[option] = static_cast<void *>(opt);
     } else {
       T *opt = static_cast<T *>(options_[option]);
-      *opt = val;
+      T copy(val);
+      std::swap(*opt, copy);
     }
   }
 
-- 
2.43.0


From 4bf7198ea7bad7674c1d658364e6b9f2b6baa997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:02 +0000
Subject: [PATCH 33/40] fix: do not leave an empty value behind if memory runs
 out while it is stored

---
 src/libcatnip/io/argumentparser.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index 50277ac..c09536a 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -219,7 +219,8 @@ void ArgumentParser::setFlagDefaultValue(string flag,const double & val) {
 }
 
 void ArgumentParser::setFlagDefaultValue(string flag,const string & val) {
-  string_values_[flag] = val;
+  string copy(val);
+  string_values_[flag].swap(copy);
   defaults_set_[flag] = true;
 }
 
@@ -443,7 +444,7 @@ void ArgumentParser::parseArg_(size_t& index, vector<string> arguments) {
       string argument = arguments.at(index + 1);
       str_arg_[flag]->argValid(argument);
       unrecognized = false;
-      string_values_[flag] = argument;
+      string_values_[flag].swap(argument);
       ++index;
     }
   }
@@ -516,7 +517,7 @@ void ArgumentParser::parseArg_(size_t& index, vector<string> arguments) {
       string argument = arguments.at(index + 1);
       file_arg_[flag]->argValid(argument);
       unrecognized = false;
-      string_values_[flag] = argument;
+      string_values_[flag].swap(argument);
       ++index;
     }
   }
-- 
2.43.0


From 7e625fdb0515f41a140c60223d742b38b7144aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:09 +0000
Subject: [PATCH 34/40] fix: do not refuse a single allowed choice after it has
 been set

---
 src/libcatnip/io/arguments/properties/propertystringchoice.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
index a8f1116..416b2ed 100644
--- a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
+++ b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
@@ -38,6 +38,7 @@ void PropertyStringChoice::setPropOption(std::string option, std::string var) {
   } else if (option.compare("STRING_CHOICES") == 0) {
     set<string> set_var{var};
     setPropOption_(option, set_var);
+    return;
   }
   throw invalid_argument("Unrecognized option value combo " + option + " " +
                          var);
-- 
2.43.0


From d3e725a6830c14c5804428b4fcc26ca0a8086e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:15 +0000
Subject: [PATCH 35/40] fix: fail if help, citation or version could not be
 written

---
 src/libcatnip/io/argumentparser.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index c09536a..8fdec21 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -1,3 +1,5 @@
+#include <cstdio>
+#include <cstdlib>
 #include <exception>
 #include <iostream>
 #include <stdexcept>
@@ -641,6 +643,13 @@ void ArgumentParser::postParseCheck(void) {
   }
 }
 
+// Ends the program after a text that was asked for, the text is only of use if
+// it could be written
+static void exitAfterText() {
+  cout.flush();
+  exit(!cout || ferror(stdout) ? 1 : 0);
+}
+
 void ArgumentParser::parse(const char* argv[], int argc) {
 
   // Convert to vector of strings
@@ -666,12 +675,12 @@ void ArgumentParser::parse(const char* argv[], int argc) {
       cout << "Usage: " << arguments.at(0) << " <options(s)> SOURCES";
       showUsage();
       if (allowed_args_before_exit == arguments.size()) {
-        exit(0);
+        exitAfterText();
       }
       ++allowed_args_before_exit;
     } else if (version_flag.compare(arguments.at(index)) == 0 ||
                version_flag_short.compare(arguments.at(index)) == 0) {
-      exit(0);
+      exitAfterText();
     } else if (citation_flag.compare(arguments.at(index)) == 0 ||
                citation_flag_short.compare(arguments.at(index)) == 0) {
       cout << "\nCitation: " << calcJ_AUTHOR_SURNAME << ", ";
@@ -682,7 +691,7 @@ void ArgumentParser::parse(const char* argv[], int argc) {
       cout << calcJ_VERSION_MINOR << "). [Software]. Available from ";
       cout << calcJ_URL << ".\n\n";
       if (allowed_args_before_exit == arguments.size()) {
-        exit(0);
+        exitAfterText();
       }
       ++allowed_args_before_exit;
     } else {
-- 
2.43.0


From 7407839853649cefb66e9e6ef69af5bf5e310958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:15 +0000
Subject: [PATCH 36/40] fix: answer -v, which the usage documents, like
 --version

---
 src/libcatnip/io/argumentparser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index 8fdec21..bc6771b 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -666,7 +666,8 @@ void ArgumentParser::parse(const char* argv[], int argc) {
   string citation_flag = "--citation";
   string citation_flag_short = "-cite";
   string version_flag = "--version";
-  string version_flag_short = "-version";
+  string version_flag_short = "-v";
+  string version_flag_other = "-version";
 
   size_t allowed_args_before_exit = 2;
   for (size_t index = 1; index < arguments.size(); ++index) {
@@ -679,7 +680,8 @@ void ArgumentParser::parse(const char* argv[], int argc) {
       }
       ++allowed_args_before_exit;
     } else if (version_flag.compare(arguments.at(index)) == 0 ||
-               version_flag_short.compare(arguments.at(index)) == 0) {
+               version_flag_short.compare(arguments.at(index)) == 0 ||
+               version_flag_other.compare(arguments.at(index)) == 0) {
       exitAfterText();
     } else if (citation_flag.compare(arguments.at(index)) == 0 ||
                citation_flag_short.compare(arguments.at(index)) == 0) {
-- 
2.43.0


From 7bf1621321b1d4af290ab0c4aaccea19b35e8dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:15 +0000
Subject: [PATCH 37/40] fix: line the basis functions up from the order they
 were given in, also a second time

---
 src/libcatnip/qc_functions.cpp | 17 ++++++++++++-----
 src/libcatnip/qc_functions.hpp |  4 ++++
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/libcatnip/qc_functions.cpp b/src/libcatnip/qc_functions.cpp
index 363ad7b..83b947a 100644
--- a/src/libcatnip/qc_functions.cpp
+++ b/src/libcatnip/qc_functions.cpp
@@ -664,6 +664,11 @@ TransferComplex::TransferComplex(Matrix *mat1Coef, Matrix *mat2Coef,
   Orbs2 = MOs2;
   mat_S = matS;
   mat_P_OE = matPOE;
+  // The basis functions are always lined up from the order they were given in,
+  // once lined up they are not in the order of the files' atoms any more
+  given_2_Coef = mat2Coef;
+  given_P_Coef = matPCoef;
+  given_S = matS;
 }
 
 void TransferComplex::unscramble(const Matrix &coord_1_mat,
@@ -682,14 +687,16 @@ void TransferComplex::unscramble(const Matrix &coord_1_mat,
 
     checkMatch(match_1_2, basis1, basis2, mat_2_Coef);
     LOG("Counter Poise unscrambling matrix 2 with respect to matrix 1", 2);
-    auto unscrambled_2_Coef = unscramble_Coef(match_1_2, basis2, mat_2_Coef);
+    auto unscrambled_2_Coef =
+        unscramble_Coef(match_1_2, basis2, given_2_Coef);
 
     vector<int> match_1_P = coord_1_mat.matchCol(coord_P_mat, sig_fig);
 
     checkMatch(match_1_P, basis1, basisP, mat_P_Coef);
-    auto unscrambled_P_Coef = unscramble_Coef(match_1_P, basisP, mat_P_Coef);
+    auto unscrambled_P_Coef =
+        unscramble_Coef(match_1_P, basisP, given_P_Coef);
 
-    auto unscrambled_S = unscramble_S(match_1_P, basisP, mat_S);
+    auto unscrambled_S = unscramble_S(match_1_P, basisP, given_S);
 
     // Only now can nothing fail any more, a complex that was unscrambled in
     // part would give wrong values
@@ -719,9 +726,9 @@ void TransferComplex::unscramble(const Matrix &coord_1_mat,
     }
     LOG("Unscrambling dimer matrix with respect to matrix 1 and 2", 2);
     auto unscrambled_P_Coef =
-        unscramble_Coef(match_1_P, match_2_P, basisP, mat_P_Coef);
+        unscramble_Coef(match_1_P, match_2_P, basisP, given_P_Coef);
 
-    auto unscrambled_S = unscramble_S(match_1_P, match_2_P, basisP, mat_S);
+    auto unscrambled_S = unscramble_S(match_1_P, match_2_P, basisP, given_S);
 
     this->mat_P_Coef = unscrambled_P_Coef;
     this->mat_S = unscrambled_S;
diff --git a/src/libcatnip/qc_functions.hpp b/src/libcatnip/qc_functions.hpp
index 824552a..9d88b00 100644
--- a/src/libcatnip/qc_functions.hpp
+++ b/src/libcatnip/qc_functions.hpp
@@ -22,6 +22,10 @@ class TransferComplex {
   std::pair<int, int> Orbs2;
   Matrix* mat_S;
   Matrix* mat_P_OE;
+  // As they were handed in, in the order of the basis functions in the files
+  Matrix* given_2_Coef;
+  Matrix* given_P_Coef;
+  Matrix* given_S;
   // If unscrambaling is required
   bool unscrambled;
   bool counterPoise_;
-- 
2.43.0


From 91388960a98294e027033a7caa84193b738340c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:11 +0000
Subject: [PATCH 38/40] fix: refuse numbers followed by other characters

---
 src/libcatnip/io/argumentparser.cpp | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index bc6771b..4609421 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -421,6 +421,25 @@ bool ArgumentParser::nextParameterIsAFlag_(size_t index,
   return false;
 }
 
+// Numbers are read to the end of the text, "1.5" is not the integer 1
+static int toInt(const string& text) {
+  size_t used = 0;
+  int val = stoi(text, &used);
+  if (used != text.size()) {
+    throw invalid_argument("Not an integer: " + text);
+  }
+  return val;
+}
+
+static double toDouble(const string& text) {
+  size_t used = 0;
+  double val = stod(text, &used);
+  if (used != text.size()) {
+    throw invalid_argument("Not a number: " + text);
+  }
+  return val;
+}
+
 void ArgumentParser::parseArg_(size_t& index, vector<string> arguments) {
   string flag = arguments.at(index);
   // If the abbreviated flag is passed we need to resolve the full flag name
@@ -489,9 +508,10 @@ void ArgumentParser::parseArg_(size_t& index, vector<string> arguments) {
         throw runtime_error(err);
       }
       string argument = arguments.at(index + 1);
-      int_arg_[flag]->argValid(stoi(argument));
+      int val = toInt(argument);
+      int_arg_[flag]->argValid(val);
       unrecognized = false;
-      int_values_[flag] = stoi(argument);
+      int_values_[flag] = val;
       ++index;
     }
   }
@@ -503,9 +523,10 @@ void ArgumentParser::parseArg_(size_t& index, vector<string> arguments) {
         throw runtime_error(err);
       }
       string argument = arguments.at(index + 1);
-      double_arg_[flag]->argValid(stod(argument));
+      double val = toDouble(argument);
+      double_arg_[flag]->argValid(val);
       unrecognized = false;
-      double_values_[flag] = stod(argument);
+      double_values_[flag] = val;
       ++index;
     }
   }
-- 
2.43.0


From 9130aec1ec8bfc17da8ac87684a13466f4fad8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:33 +0000
Subject: [PATCH 39/40] fix: refuse rows and columns a matrix does not have

---
 src/libcatnip/matrix.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 04c45ff..1008c06 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -458,32 +458,33 @@ int Matrix::index(const int r, const int c, const int s) const {
   return (r - 1) * cols * shel + (c - 1) * shel + s - 1;
 }
 
+static void checkWithin(int pos, int count, const char *what) {
+  if (pos < 1 || pos > count) {
+    throw invalid_argument("matrix has no " + string(what) + " " +
+                           to_string(pos));
+  }
+}
+
 void Matrix::set_row(vector<double> row, int r) {
 
+  checkWithin(r, rows, "row");
   if (get_cols() != static_cast<int>(row.size())) {
     throw invalid_argument("vector is not the same size as matrix");
   }
 
   for (int j = 1; j <= get_cols(); j++) {
-    if (r <= rows) {
-      elem[index(r, j, 1)] = row.at(j - 1);
-    } else {
-      elem[index(r, j, 1)] = 0;
-    }
+    elem[index(r, j, 1)] = row.at(j - 1);
   }
 }
 
 void Matrix::set_col(vector<double> col, int c) {
 
+  checkWithin(c, cols, "column");
   if (get_rows() != static_cast<int>(col.size())) {
     throw invalid_argument("vector is not the same size as matrix");
   }
   for (int i = 1; i <= get_rows(); ++i) {
-    if (c <= cols) {
-      elem[index(i, c, 1)] = col.at(i - 1);
-    } else {
-      elem[index(i, c, 1)] = 0;
-    }
+    elem[index(i, c, 1)] = col.at(i - 1);
   }
 }
 
@@ -528,6 +529,7 @@ void Matrix::set_rows(int r) {
 }
 
 vector<double> Matrix::get_col(int c) const{
+  checkWithin(c, cols, "column");
   vector<double> col_data;
   for (int i = 1; i <= rows; i++) {
     col_data.push_back(elem[index(i, c, 1)]);
@@ -536,6 +538,7 @@ vector<double> Matrix::get_col(int c) const{
 }
 
 vector<double> Matrix::get_row(int r) const {
+  checkWithin(r, rows, "row");
   vector<double> row_data;
   for (int i = 1; i <= cols; i++) {
     row_data.push_back(elem[index(r, i, 1)]);
@@ -755,6 +758,8 @@ double Matrix::get_elem(const int r, const int c) const {
 }
 
 double *Matrix::get_elem_ptr(const int r, const int c) const {
+  checkWithin(r, rows, "row");
+  checkWithin(c, cols, "column");
   return &elem[index(r, c, 1)];
 }
 
@@ -812,6 +817,7 @@ void Matrix::move_row(int r_from, int r_to) {
 
   if (r_from == r_to) return;
 
+  checkWithin(r_to, rows, "row");
   // Shift all rows down
   vector<double> row = get_row(r_from);
   // Shift all values down
@@ -836,6 +842,7 @@ void Matrix::move_col(int c_from, int c_to) {
 
   if (c_from == c_to) return;
 
+  checkWithin(c_to, cols, "column");
   // Shift all rows down
   vector<double> col = get_col(c_from);
   // Shift all values down
-- 
2.43.0


From 7aad70092f69b0e643c8a0d2f0807348472b3483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:44 +0000
Subject: [PATCH 40/40] fix: refuse an empty set for the enforcement of choices

---
 src/libcatnip/io/arguments/properties/propertystringchoice.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
index 416b2ed..b10025b 100644
--- a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
+++ b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
@@ -51,7 +51,7 @@ void PropertyStringChoice::setPropOption(std::string option,
     setPropOption_(option, set_vars);
     return;
   } else if (option.compare("STRING_CHOICE_ENFORCED") == 0) {
-    if (set_vars.size() > 1) {
+    if (set_vars.size() != 1) {
       string err = "";
       for (auto var : set_vars) {
         err.append(var);
-- 
2.43.0

