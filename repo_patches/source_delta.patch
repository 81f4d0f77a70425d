From 74167689427b9067511c41ebffbe0af2b1d236a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 01/78] fix: intersecting an empty AABB tree dereferenced a
 null box

---
 toolbox/src/AABBtree.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toolbox/src/AABBtree.cc b/toolbox/src/AABBtree.cc
index a7aee91..0de7961 100644
--- a/toolbox/src/AABBtree.cc
+++ b/toolbox/src/AABBtree.cc
@@ -218,6 +218,10 @@ namespace acme
   )
     const
   {
+    // Nothing can intersect an empty tree
+    if (this->isEmpty() || tree.isEmpty())
+      return;
+
     if (!tree.m_ptrbox->intersects(*this->m_ptrbox))
       return;
     integer icase = (this->m_children.empty() ? 0 : 1) +
-- 
2.43.0


From 4de50ef288f0b608cf5a257010eb2b61784acc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 02/78] fix: mesh queries returned wrong triangles when ids
 differ from positions

---
 src/mesh.cc         | 4 +++-
 toolbox/src/mesh.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mesh.cc b/src/mesh.cc
index db7bf1c..84d8d67 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -517,8 +517,10 @@ namespace enve
       this->m_bboxes.clear();
       for (size_t i = 0; i < this->m_triangles.size(); ++i)
       {
+        // The box id is the triangle position, whatever the triangle id is
+        aabb const & bbox = this->m_triangles[i]->bbox();
         this->m_bboxes.push_back(
-          std::make_shared<aabb const>(this->m_triangles[i]->bbox())
+          std::make_shared<aabb const>(bbox.min(), bbox.max(), integer(i))
         );
       }
     }
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index db7bf1c..84d8d67 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -517,8 +517,10 @@ namespace enve
       this->m_bboxes.clear();
       for (size_t i = 0; i < this->m_triangles.size(); ++i)
       {
+        // The box id is the triangle position, whatever the triangle id is
+        aabb const & bbox = this->m_triangles[i]->bbox();
         this->m_bboxes.push_back(
-          std::make_shared<aabb const>(this->m_triangles[i]->bbox())
+          std::make_shared<aabb const>(bbox.min(), bbox.max(), integer(i))
         );
       }
     }
-- 
2.43.0


From 539542c43df3b102f037d8a377a5eb30fd63a32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 03/78] fix: mesh files with node indices past the node list
 were read out of range

---
 src/mesh.cc         | 24 ++++++++++++------------
 toolbox/src/mesh.cc | 24 ++++++++++++------------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/mesh.cc b/src/mesh.cc
index 84d8d67..03cd574 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -302,12 +302,12 @@ namespace enve
           i_element[1] = integer(std::stoi(s_node[1]));
           i_element[2] = integer(std::stoi(s_node[2]));
           i_friction   = real(std::stod(s_node[3]));
-          ENVE_ASSERT(i_element[0] >= integer(0),
-            CMD "element 0 index cannot be negative.");
-          ENVE_ASSERT(i_element[1] >= integer(0),
-            CMD "element 1 index cannot be negative.");
-          ENVE_ASSERT(i_element[2] >= integer(0),
-            CMD "element 2 index cannot be negative.");
+          ENVE_ASSERT(i_element[0] >= integer(0) && size_t(i_element[0]) < nodes.size(),
+            CMD "element 0 index out of range.");
+          ENVE_ASSERT(i_element[1] >= integer(0) && size_t(i_element[1]) < nodes.size(),
+            CMD "element 1 index out of range.");
+          ENVE_ASSERT(i_element[2] >= integer(0) && size_t(i_element[2]) < nodes.size(),
+            CMD "element 2 index out of range.");
           ENVE_ASSERT(i_friction >= real(0.0),
             CMD "element friction cannot be negative.");
 
@@ -418,12 +418,12 @@ namespace enve
           i_element[0] = std::stoi(s_node[0]) - 1;
           i_element[1] = std::stoi(s_node[1]) - 1;
           i_element[2] = std::stoi(s_node[2]) - 1;
-          ENVE_ASSERT(i_element[0] >= integer(0),
-            CMD "element 0 index cannot be negative.");
-          ENVE_ASSERT(i_element[1] >= integer(0),
-            CMD "element 1 index cannot be negative.");
-          ENVE_ASSERT(i_element[2] >= integer(0),
-            CMD "element 2 index cannot be negative.");
+          ENVE_ASSERT(i_element[0] >= integer(0) && size_t(i_element[0]) < nodes.size(),
+            CMD "element 0 index out of range.");
+          ENVE_ASSERT(i_element[1] >= integer(0) && size_t(i_element[1]) < nodes.size(),
+            CMD "element 1 index out of range.");
+          ENVE_ASSERT(i_element[2] >= integer(0) && size_t(i_element[2]) < nodes.size(),
+            CMD "element 2 index out of range.");
 
           // Create a shared pointer for the last triangle
           this->m_triangles.push_back(
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index 84d8d67..03cd574 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -302,12 +302,12 @@ namespace enve
           i_element[1] = integer(std::stoi(s_node[1]));
           i_element[2] = integer(std::stoi(s_node[2]));
           i_friction   = real(std::stod(s_node[3]));
-          ENVE_ASSERT(i_element[0] >= integer(0),
-            CMD "element 0 index cannot be negative.");
-          ENVE_ASSERT(i_element[1] >= integer(0),
-            CMD "element 1 index cannot be negative.");
-          ENVE_ASSERT(i_element[2] >= integer(0),
-            CMD "element 2 index cannot be negative.");
+          ENVE_ASSERT(i_element[0] >= integer(0) && size_t(i_element[0]) < nodes.size(),
+            CMD "element 0 index out of range.");
+          ENVE_ASSERT(i_element[1] >= integer(0) && size_t(i_element[1]) < nodes.size(),
+            CMD "element 1 index out of range.");
+          ENVE_ASSERT(i_element[2] >= integer(0) && size_t(i_element[2]) < nodes.size(),
+            CMD "element 2 index out of range.");
           ENVE_ASSERT(i_friction >= real(0.0),
             CMD "element friction cannot be negative.");
 
@@ -418,12 +418,12 @@ namespace enve
           i_element[0] = std::stoi(s_node[0]) - 1;
           i_element[1] = std::stoi(s_node[1]) - 1;
           i_element[2] = std::stoi(s_node[2]) - 1;
-          ENVE_ASSERT(i_element[0] >= integer(0),
-            CMD "element 0 index cannot be negative.");
-          ENVE_ASSERT(i_element[1] >= integer(0),
-            CMD "element 1 index cannot be negative.");
-          ENVE_ASSERT(i_element[2] >= integer(0),
-            CMD "element 2 index cannot be negative.");
+          ENVE_ASSERT(i_element[0] >= integer(0) && size_t(i_element[0]) < nodes.size(),
+            CMD "element 0 index out of range.");
+          ENVE_ASSERT(i_element[1] >= integer(0) && size_t(i_element[1]) < nodes.size(),
+            CMD "element 1 index out of range.");
+          ENVE_ASSERT(i_element[2] >= integer(0) && size_t(i_element[2]) < nodes.size(),
+            CMD "element 2 index out of range.");
 
           // Create a shared pointer for the last triangle
           this->m_triangles.push_back(
-- 
2.43.0


From 7457e7b3a0209ab409850e17ee84412d100aa42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 04/78] fix: loading a mesh twice failed and a rejected file
 left a half-loaded mesh

---
 src/mesh.cc         | 24 ++++++++++++++++--------
 toolbox/src/mesh.cc | 24 ++++++++++++++++--------
 2 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/mesh.cc b/src/mesh.cc
index 03cd574..2b9ff82 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -239,7 +239,8 @@ namespace enve
       // Vector for nodes coordinates
       std::vector<point> nodes;
       nodes.reserve(25000);
-      this->m_triangles.reserve(100000);
+      triangleground::vecptr triangles;
+      triangles.reserve(100000);
       size_t nodes_count    = size_t(0);
       size_t elements_count = size_t(0);
       bool   nodes_parse    = false;
@@ -312,7 +313,7 @@ namespace enve
             CMD "element friction cannot be negative.");
 
           // Create a shared pointer for the last triangle
-          this->m_triangles.push_back(
+          triangles.push_back(
             std::make_shared<triangleground const>(
               elements_count, i_friction,
               nodes[i_element[0]], nodes[i_element[1]], nodes[i_element[2]]
@@ -325,17 +326,20 @@ namespace enve
         << "Done" << std::endl;
 
       // Perform safety check
-      ENVE_ASSERT(nodes.size() == nodes_count && this->m_triangles.size() == elements_count,
+      ENVE_ASSERT(nodes.size() == nodes_count && triangles.size() == elements_count,
         CMD "safety check not passed.");
 
       file.close();
-      if (this->m_triangles.empty())
+      if (triangles.empty())
       {
         ENVE_ERROR(CMD "*.rdf loaded mesh is empty.");
         //return false;
       }
       else
       {
+        // Replace the previous triangles, if any
+        this->m_triangles.swap(triangles);
+
         // Update the local intersected triangles list
         std::cout
           << "Building AABB tree... ";
@@ -383,7 +387,8 @@ namespace enve
       // Vector for nodes coordinates
       std::vector<point> nodes;
       nodes.reserve(25000);
-      this->m_triangles.reserve(100000);
+      triangleground::vecptr triangles;
+      triangles.reserve(100000);
       size_t nodes_count    = size_t(0);
       size_t elements_count = size_t(0);
 
@@ -426,7 +431,7 @@ namespace enve
             CMD "element 2 index out of range.");
 
           // Create a shared pointer for the last triangle
-          this->m_triangles.push_back(
+          triangles.push_back(
             std::make_shared<triangleground const>(
               elements_count, friction,
               nodes[i_element[0]], nodes[i_element[1]], nodes[i_element[2]]
@@ -444,17 +449,20 @@ namespace enve
         << "Done" << std::endl;
 
       // Perform safety check
-      ENVE_ASSERT(nodes.size() == nodes_count && this->m_triangles.size() == elements_count,
+      ENVE_ASSERT(nodes.size() == nodes_count && triangles.size() == elements_count,
         CMD "safety check not passed.");
 
       file.close();
-      if (this->m_triangles.empty())
+      if (triangles.empty())
       {
         ENVE_ERROR(CMD "*.obj loaded mesh is empty.");
         //return false;
       }
       else
       {
+        // Replace the previous triangles, if any
+        this->m_triangles.swap(triangles);
+
         // Update the local intersected triangles list
         std::cout << "Building AABB tree... ";
         this->buildAABBtree();
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index 03cd574..2b9ff82 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -239,7 +239,8 @@ namespace enve
       // Vector for nodes coordinates
       std::vector<point> nodes;
       nodes.reserve(25000);
-      this->m_triangles.reserve(100000);
+      triangleground::vecptr triangles;
+      triangles.reserve(100000);
       size_t nodes_count    = size_t(0);
       size_t elements_count = size_t(0);
       bool   nodes_parse    = false;
@@ -312,7 +313,7 @@ namespace enve
             CMD "element friction cannot be negative.");
 
           // Create a shared pointer for the last triangle
-          this->m_triangles.push_back(
+          triangles.push_back(
             std::make_shared<triangleground const>(
               elements_count, i_friction,
               nodes[i_element[0]], nodes[i_element[1]], nodes[i_element[2]]
@@ -325,17 +326,20 @@ namespace enve
         << "Done" << std::endl;
 
       // Perform safety check
-      ENVE_ASSERT(nodes.size() == nodes_count && this->m_triangles.size() == elements_count,
+      ENVE_ASSERT(nodes.size() == nodes_count && triangles.size() == elements_count,
         CMD "safety check not passed.");
 
       file.close();
-      if (this->m_triangles.empty())
+      if (triangles.empty())
       {
         ENVE_ERROR(CMD "*.rdf loaded mesh is empty.");
         //return false;
       }
       else
       {
+        // Replace the previous triangles, if any
+        this->m_triangles.swap(triangles);
+
         // Update the local intersected triangles list
         std::cout
           << "Building AABB tree... ";
@@ -383,7 +387,8 @@ namespace enve
       // Vector for nodes coordinates
       std::vector<point> nodes;
       nodes.reserve(25000);
-      this->m_triangles.reserve(100000);
+      triangleground::vecptr triangles;
+      triangles.reserve(100000);
       size_t nodes_count    = size_t(0);
       size_t elements_count = size_t(0);
 
@@ -426,7 +431,7 @@ namespace enve
             CMD "element 2 index out of range.");
 
           // Create a shared pointer for the last triangle
-          this->m_triangles.push_back(
+          triangles.push_back(
             std::make_shared<triangleground const>(
               elements_count, friction,
               nodes[i_element[0]], nodes[i_element[1]], nodes[i_element[2]]
@@ -444,17 +449,20 @@ namespace enve
         << "Done" << std::endl;
 
       // Perform safety check
-      ENVE_ASSERT(nodes.size() == nodes_count && this->m_triangles.size() == elements_count,
+      ENVE_ASSERT(nodes.size() == nodes_count && triangles.size() == elements_count,
         CMD "safety check not passed.");
 
       file.close();
-      if (this->m_triangles.empty())
+      if (triangles.empty())
       {
         ENVE_ERROR(CMD "*.obj loaded mesh is empty.");
         //return false;
       }
       else
       {
+        // Replace the previous triangles, if any
+        this->m_triangles.swap(triangles);
+
         // Update the local intersected triangles list
         std::cout << "Building AABB tree... ";
         this->buildAABBtree();
-- 
2.43.0


From ab9e3c737521027a0c1413492f57bcf001d19bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 05/78] fix: mesh copy and clear left the AABB tree of the
 previous triangles

---
 src/mesh.cc         | 2 ++
 toolbox/src/mesh.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/mesh.cc b/src/mesh.cc
index 2b9ff82..4083d42 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -107,6 +107,7 @@ namespace enve
     )
     {
       this->m_triangles = mesh_obj.m_triangles;
+      this->buildAABBtree();
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -120,6 +121,7 @@ namespace enve
           {this->m_triangles[i].reset();}
       }
       this->m_triangles.clear();
+      this->buildAABBtree();
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index 2b9ff82..4083d42 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -107,6 +107,7 @@ namespace enve
     )
     {
       this->m_triangles = mesh_obj.m_triangles;
+      this->buildAABBtree();
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -120,6 +121,7 @@ namespace enve
           {this->m_triangles[i].reset();}
       }
       this->m_triangles.clear();
+      this->buildAABBtree();
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 1fa3cc87803b768072512cab495297a48a4cb550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 06/78] fix: blank lines in RDF files were rejected as
 malformed data

---
 src/mesh.cc         | 4 ++--
 toolbox/src/mesh.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mesh.cc b/src/mesh.cc
index 4083d42..60e3404 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -276,7 +276,7 @@ namespace enve
           // Treated as a sigle-line comment
           continue;
         }
-        else if (token[0] == '%' || token[0] == '#' || token[0] == '\r')
+        else if (token.empty() || token[0] == '%' || token[0] == '#' || token[0] == '\r')
         {
           // Check comments or empty lines
           continue;
@@ -441,7 +441,7 @@ namespace enve
             ++elements_count;
           continue;
         }
-        else if (token[0] == '%' || token[0] == '#' || token[0] == '\r')
+        else if (token.empty() || token[0] == '%' || token[0] == '#' || token[0] == '\r')
         {
           // Check comments or empty lines
           continue;
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index 4083d42..60e3404 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -276,7 +276,7 @@ namespace enve
           // Treated as a sigle-line comment
           continue;
         }
-        else if (token[0] == '%' || token[0] == '#' || token[0] == '\r')
+        else if (token.empty() || token[0] == '%' || token[0] == '#' || token[0] == '\r')
         {
           // Check comments or empty lines
           continue;
@@ -441,7 +441,7 @@ namespace enve
             ++elements_count;
           continue;
         }
-        else if (token[0] == '%' || token[0] == '#' || token[0] == '\r')
+        else if (token.empty() || token[0] == '%' || token[0] == '#' || token[0] == '\r')
         {
           // Check comments or empty lines
           continue;
-- 
2.43.0


From ced153e188c42c6ebe3f8cfc2fa568e52af9e736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:04 +0000
Subject: [PATCH 07/78] fix: CR-LF line ends after trailing spaces made mesh
 files be rejected

---
 src/mesh.cc         | 12 ++++++++++++
 toolbox/src/mesh.cc | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/mesh.cc b/src/mesh.cc
index 60e3404..ec4d37b 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -257,6 +257,12 @@ namespace enve
       real i_friction;
       while (std::getline(file, curline))
       {
+        // Drop the carriage return left by a CR-LF line end
+        if (!curline.empty() && curline.back() == '\r')
+        {
+          curline.pop_back();
+        }
+
         token = this->firstToken(curline);
         if (token == "[NODES]" || token == "NODES")
         {
@@ -402,6 +408,12 @@ namespace enve
       point p_node;
       while (std::getline(file, curline))
       {
+        // Drop the carriage return left by a CR-LF line end
+        if (!curline.empty() && curline.back() == '\r')
+        {
+          curline.pop_back();
+        }
+
         token = this->firstToken(curline);
         if (token == "v")
         {
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index 60e3404..ec4d37b 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -257,6 +257,12 @@ namespace enve
       real i_friction;
       while (std::getline(file, curline))
       {
+        // Drop the carriage return left by a CR-LF line end
+        if (!curline.empty() && curline.back() == '\r')
+        {
+          curline.pop_back();
+        }
+
         token = this->firstToken(curline);
         if (token == "[NODES]" || token == "NODES")
         {
@@ -402,6 +408,12 @@ namespace enve
       point p_node;
       while (std::getline(file, curline))
       {
+        // Drop the carriage return left by a CR-LF line end
+        if (!curline.empty() && curline.back() == '\r')
+        {
+          curline.pop_back();
+        }
+
         token = this->firstToken(curline);
         if (token == "v")
         {
-- 
2.43.0


From 27cd1069cdaed07999d71425e63ffa1b52a274c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 08/78] fix: rib outputs of a shell were written past the end
 of their vector

---
 src/shell.cc         | 1 +
 toolbox/src/shell.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/shell.cc b/src/shell.cc
index 0f17f9a..310d749 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -84,6 +84,7 @@ namespace enve
     this->m_out.clear();        this->m_out.reserve(200);
     this->m_candidates.clear(); this->m_candidates.reserve(200);
 
+    this->m_out.resize(size);
     this->m_candidates.resize(size);
     for (size_t i = 0; i < size; ++i)
       {this->m_candidates[i].reserve(200);}
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 0f17f9a..310d749 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -84,6 +84,7 @@ namespace enve
     this->m_out.clear();        this->m_out.reserve(200);
     this->m_candidates.clear(); this->m_candidates.reserve(200);
 
+    this->m_out.resize(size);
     this->m_candidates.resize(size);
     for (size_t i = 0; i < size; ++i)
       {this->m_candidates[i].reserve(200);}
-- 
2.43.0


From f13d192c9c86e9a012dbcc8b89399ab8684d423d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 09/78] fix: shell setup on flat ground returned the contact
 flag of the last rib only

---
 src/shell.cc         | 2 +-
 toolbox/src/shell.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shell.cc b/src/shell.cc
index 310d749..37c6bcd 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -496,7 +496,7 @@ namespace enve
     // Perform intersection on all ribs
     bool out = false;
     for (size_t i = 0; i < this->size(); ++i)
-      {out = this->m_ribs[i].envelop(ground, pose, method, this->m_out[i]);}
+      {out = this->m_ribs[i].envelop(ground, pose, method, this->m_out[i]) || out;}
     return out;
 
     #undef CMD
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 310d749..37c6bcd 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -496,7 +496,7 @@ namespace enve
     // Perform intersection on all ribs
     bool out = false;
     for (size_t i = 0; i < this->size(); ++i)
-      {out = this->m_ribs[i].envelop(ground, pose, method, this->m_out[i]);}
+      {out = this->m_ribs[i].envelop(ground, pose, method, this->m_out[i]) || out;}
     return out;
 
     #undef CMD
-- 
2.43.0


From 2498d527beead97f445edd03caacce7a9cc3dd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 10/78] fix: total contact area summed the ribs friction

---
 src/shell.cc         | 2 +-
 toolbox/src/shell.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shell.cc b/src/shell.cc
index 37c6bcd..0b02eb7 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -731,7 +731,7 @@ namespace enve
   {
     area = 0.0;
     for (size_t i = 0; i < this->size(); ++i)
-      {area += this->m_out[i].friction;}
+      {area += this->m_out[i].area;}
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 37c6bcd..0b02eb7 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -731,7 +731,7 @@ namespace enve
   {
     area = 0.0;
     for (size_t i = 0; i < this->size(); ++i)
-      {area += this->m_out[i].friction;}
+      {area += this->m_out[i].area;}
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 3b424b0d106ae3a2e7f899e1ab74ba5889b60b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 11/78] fix: contact frames and relative angles of all ribs
 were written to an unsized vector

---
 src/shell.cc         | 2 ++
 toolbox/src/shell.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/shell.cc b/src/shell.cc
index 0b02eb7..36b26ab 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -842,6 +842,7 @@ namespace enve
   )
     const
   {
+    pose.resize(this->size());
     for (size_t i = 0; i < this->size(); ++i)
       {this->contactPointAffine(i, pose[i]);}
   }
@@ -884,6 +885,7 @@ namespace enve
   )
     const
   {
+    angles.resize(this->size());
     for (size_t i = 0; i < this->size(); ++i)
       {this->relativeAngles(i, angles[i]);}
   }
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 0b02eb7..36b26ab 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -842,6 +842,7 @@ namespace enve
   )
     const
   {
+    pose.resize(this->size());
     for (size_t i = 0; i < this->size(); ++i)
       {this->contactPointAffine(i, pose[i]);}
   }
@@ -884,6 +885,7 @@ namespace enve
   )
     const
   {
+    angles.resize(this->size());
     for (size_t i = 0; i < this->size(); ++i)
       {this->relativeAngles(i, angles[i]);}
   }
-- 
2.43.0


From 243376ed5d6024336f444c322882996d8f9f5971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 12/78] fix: a negligible chord made the rib skip the remaining
 mesh triangles

---
 src/rib.cc         | 2 +-
 toolbox/src/rib.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rib.cc b/src/rib.cc
index d3ecc4e..e2333d3 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -271,7 +271,7 @@ namespace enve
         // Check intersection
         segment_length_tmp = segment_tmp.length();
         if (t_b - t_a < EPSILON_ENVE && segment_length_tmp < EPSILON_ENVE)
-          {break;}
+          {continue;}
         else
           {int_bool = true;}
 
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index d3ecc4e..e2333d3 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -271,7 +271,7 @@ namespace enve
         // Check intersection
         segment_length_tmp = segment_tmp.length();
         if (t_b - t_a < EPSILON_ENVE && segment_length_tmp < EPSILON_ENVE)
-          {break;}
+          {continue;}
         else
           {int_bool = true;}
 
-- 
2.43.0


From 99dcd8ab0fdb243fa0831f15e83c21c022e68a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 13/78] fix: mesh contact was wrong for chords crossing the rib
 negative x-axis

---
 src/rib.cc         | 5 ++++-
 toolbox/src/rib.cc | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/rib.cc b/src/rib.cc
index e2333d3..b1f2ef1 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -261,9 +261,12 @@ namespace enve
 
         // Check consistency
         if(t_b < t_a)
+          {std::swap(t_a, t_b);}
+        // Chords crossing the negative x-axis span over the angle discontinuity
+        if (t_b - t_a > PI)
         {
           std::swap(t_a, t_b);
-          std::swap(r_a, r_b);
+          t_b += real(2.0) * PI;
         }
         t_c = (t_a + t_b) / real(2.0);
         t_d = (t_b - t_a) / real(2.0);
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index e2333d3..b1f2ef1 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -261,9 +261,12 @@ namespace enve
 
         // Check consistency
         if(t_b < t_a)
+          {std::swap(t_a, t_b);}
+        // Chords crossing the negative x-axis span over the angle discontinuity
+        if (t_b - t_a > PI)
         {
           std::swap(t_a, t_b);
-          std::swap(r_a, r_b);
+          t_b += real(2.0) * PI;
         }
         t_c = (t_a + t_b) / real(2.0);
         t_d = (t_b - t_a) / real(2.0);
-- 
2.43.0


From e6f96fede7e462979e93ed6baa3a22ffbdd053d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 14/78] fix: the shell bounding box did not contain the ribs of
 a cambered or yawed wheel

---
 src/shell.cc         | 3 ++-
 toolbox/src/shell.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/shell.cc b/src/shell.cc
index 36b26ab..eb8b78c 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -417,7 +417,8 @@ namespace enve
   void
   shell::updateBBox(void)
   {
-    real  radius = this->m_shape->surfaceMaxRadius();
+    // The ribs rim can be farther than the maximum radius from the shell center
+    real  radius = std::hypot(this->m_shape->surfaceMaxRadius(), this->m_shape->surfaceWidth());
     point origin(this->m_affine.translation());
     point extrema(radius, radius, radius);
     this->m_bbox->min() = origin - extrema;
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 36b26ab..eb8b78c 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -417,7 +417,8 @@ namespace enve
   void
   shell::updateBBox(void)
   {
-    real  radius = this->m_shape->surfaceMaxRadius();
+    // The ribs rim can be farther than the maximum radius from the shell center
+    real  radius = std::hypot(this->m_shape->surfaceMaxRadius(), this->m_shape->surfaceWidth());
     point origin(this->m_affine.translation());
     point extrema(radius, radius, radius);
     this->m_bbox->min() = origin - extrema;
-- 
2.43.0


From 6b1d24b9a32ba7f45a137d6403cc1b511f64d273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 15/78] fix: copying a ground triangle did not copy its id

---
 src/triangleground.cc         | 1 +
 toolbox/src/triangleground.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/triangleground.cc b/src/triangleground.cc
index 92846d4..84cf7f3 100644
--- a/src/triangleground.cc
+++ b/src/triangleground.cc
@@ -148,6 +148,7 @@ namespace enve
   )
   {
     this->triangle::operator=(triangleground_obj);
+    this->m_id       = triangleground_obj.m_id;
     this->m_friction = triangleground_obj.m_friction;
     this->m_normal   = triangleground_obj.m_normal;
     this->m_bbox     = triangleground_obj.m_bbox;
diff --git a/toolbox/src/triangleground.cc b/toolbox/src/triangleground.cc
index 92846d4..84cf7f3 100644
--- a/toolbox/src/triangleground.cc
+++ b/toolbox/src/triangleground.cc
@@ -148,6 +148,7 @@ namespace enve
   )
   {
     this->triangle::operator=(triangleground_obj);
+    this->m_id       = triangleground_obj.m_id;
     this->m_friction = triangleground_obj.m_friction;
     this->m_normal   = triangleground_obj.m_normal;
     this->m_bbox     = triangleground_obj.m_bbox;
-- 
2.43.0


From 98af09e8cb3e2d4ef9c0e54acb75faaf132f501a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 16/78] fix: copying a rib did not copy its lateral position

---
 src/rib.cc         | 1 +
 toolbox/src/rib.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/rib.cc b/src/rib.cc
index b1f2ef1..ca31966 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -84,6 +84,7 @@ namespace enve
   {
     this->disk::operator=(rib_obj);
     this->m_id    = rib_obj.m_id;
+    this->m_y     = rib_obj.m_y;
     this->m_width = rib_obj.m_width;
     this->m_angle = rib_obj.m_angle;
   }
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index b1f2ef1..ca31966 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -84,6 +84,7 @@ namespace enve
   {
     this->disk::operator=(rib_obj);
     this->m_id    = rib_obj.m_id;
+    this->m_y     = rib_obj.m_y;
     this->m_width = rib_obj.m_width;
     this->m_angle = rib_obj.m_angle;
   }
-- 
2.43.0


From 4359e559ccedb17890f590536f37fa0dcdc21ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 17/78] fix: the pose check accepted sheared and other
 non-rigid transformations

---
 src/shell.cc         | 10 ++++++----
 toolbox/src/shell.cc | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/shell.cc b/src/shell.cc
index eb8b78c..71c0b31 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -336,10 +336,12 @@ namespace enve
   )
     const
   {
-    if (std::abs(pose.determinant() - real(1.0)) < tolerance)
-      {return true;}
-    else
-      {return false;}
+    // Orthonormal and right-handed linear part, homogeneous last row
+    mat3 linear(pose.topLeftCorner<3, 3>());
+    vec4 row(pose.row(3).transpose());
+    return (linear.transpose() * linear - mat3::Identity()).norm() < tolerance &&
+           std::abs(linear.determinant() - real(1.0)) < tolerance &&
+           (row - vec4(0.0, 0.0, 0.0, 1.0)).norm() < tolerance;
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index eb8b78c..71c0b31 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -336,10 +336,12 @@ namespace enve
   )
     const
   {
-    if (std::abs(pose.determinant() - real(1.0)) < tolerance)
-      {return true;}
-    else
-      {return false;}
+    // Orthonormal and right-handed linear part, homogeneous last row
+    mat3 linear(pose.topLeftCorner<3, 3>());
+    vec4 row(pose.row(3).transpose());
+    return (linear.transpose() * linear - mat3::Identity()).norm() < tolerance &&
+           std::abs(linear.determinant() - real(1.0)) < tolerance &&
+           (row - vec4(0.0, 0.0, 0.0, 1.0)).norm() < tolerance;
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From ec46ce46226c4c66fe3a49eb8a2ffe8e65848fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:29 +0000
Subject: [PATCH 18/78] fix: flat contact normal was arbitrary with the rib
 center on the ground plane

---
 src/rib.cc         | 4 +---
 toolbox/src/rib.cc | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/rib.cc b/src/rib.cc
index ca31966..bce6118 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -349,7 +349,6 @@ namespace enve
     point center_grd(origin + rotation * center);
 
     // Perform rib/flat intersection
-    vec3 normal_tmp;
     segment segment_tmp;
     disk rib_grd(radius, center_grd, normal_grd);
     bool int_bool = Intersection(ground, rib_grd, segment_tmp, EPSILON_ENVE);
@@ -358,8 +357,7 @@ namespace enve
     if (int_bool && segment_tmp.length() > EPSILON_ENVE)
     {
       out.point    = segment_tmp.centroid();
-      normal_tmp   = (normal_grd.cross(center_grd - out.point)).normalized();
-      out.normal   = (ground.normal() - normal_tmp * ground.normal().dot(normal_tmp)).normalized();
+      out.normal   = ground.unitNormal();
       out.friction = ground.friction();
       out.depth    = radius - (out.point - center_grd).norm();
       out.area     = real(2.0) * std::sqrt(out.depth * (real(2.0) * radius - out.depth)) * width;
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index ca31966..bce6118 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -349,7 +349,6 @@ namespace enve
     point center_grd(origin + rotation * center);
 
     // Perform rib/flat intersection
-    vec3 normal_tmp;
     segment segment_tmp;
     disk rib_grd(radius, center_grd, normal_grd);
     bool int_bool = Intersection(ground, rib_grd, segment_tmp, EPSILON_ENVE);
@@ -358,8 +357,7 @@ namespace enve
     if (int_bool && segment_tmp.length() > EPSILON_ENVE)
     {
       out.point    = segment_tmp.centroid();
-      normal_tmp   = (normal_grd.cross(center_grd - out.point)).normalized();
-      out.normal   = (ground.normal() - normal_tmp * ground.normal().dot(normal_tmp)).normalized();
+      out.normal   = ground.unitNormal();
       out.friction = ground.friction();
       out.depth    = radius - (out.point - center_grd).norm();
       out.area     = real(2.0) * std::sqrt(out.depth * (real(2.0) * radius - out.depth)) * width;
-- 
2.43.0


From a277ec2b0fd18adafca315a74a8900f3ba860538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:29 +0000
Subject: [PATCH 19/78] fix: chords of a disk were lost for short segments and
 small direction vectors

---
 toolbox/src/intersection.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 01aa3d3..0198bb5 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -2011,11 +2011,11 @@ namespace acme
     real a0 = diff.dot(diff) - disk_radius * disk_radius;
 
     real discriminant = a1 * a1 - a0 * a2;
-    if (discriminant < -tolerance)
+    if (discriminant < -tolerance * a2)
       return false;
 
     real inv = real(1.0) / a2;
-    if (std::abs(discriminant) < tolerance)
+    if (std::abs(discriminant) < tolerance * a2)
     {
       point int_point(line_origin - (a1 * inv) * line_direction);
       segment_out.vertex(0) = int_point;
@@ -2087,11 +2087,11 @@ namespace acme
     real a0 = diff.dot(diff) - disk_radius * disk_radius;
 
     real discriminant = a1 * a1 - a0 * a2;
-    if (discriminant < -tolerance)
+    if (discriminant < -tolerance * a2)
       {return false;}
 
     real inv = 1 / a2;
-    if (std::abs(discriminant) < tolerance)
+    if (std::abs(discriminant) < tolerance * a2)
     {
       real t = -a1 * inv;
       if (t < real(0.0))
@@ -2218,11 +2218,11 @@ namespace acme
     real a0 = diff.dot(diff) - disk_radius * disk_radius;
 
     real discriminant = a1 * a1 - a0 * a2;
-    if (discriminant < -tolerance)
+    if (discriminant < -tolerance * a2)
       {return false;}
 
     real inv = real(1.0) / a2;
-    if (std::abs(discriminant) < tolerance)
+    if (std::abs(discriminant) < tolerance * a2)
     {
       real t = -a1 * inv;
       if (t < real(0.0) || t > real(1.0))
-- 
2.43.0


From 71ad8162a4778a59542477d9bd6c0b08490bfe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:44 +0000
Subject: [PATCH 20/78] fix: a line through a triangle vertex raised an error
 or gave a wrong segment

---
 toolbox/src/intersection.cc | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 0198bb5..c9465c9 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -1959,28 +1959,27 @@ namespace acme
     }
     else if (bool0 && bool1 && bool2)
     {
-      if (point0.isApprox(point1, tolerance))
-      {
-        segment_out.vertex(0) = point1;
-        segment_out.vertex(1) = point2;
-        return true;
-      }
-      else if (point1.isApprox(point2, tolerance))
+      // The line passes through a vertex: two of the points are (nearly) the
+      // same one, take the two farthest points
+      real distance01 = (point0 - point1).squaredNorm();
+      real distance12 = (point1 - point2).squaredNorm();
+      real distance20 = (point2 - point0).squaredNorm();
+      if (distance01 >= distance12 && distance01 >= distance20)
       {
         segment_out.vertex(0) = point0;
         segment_out.vertex(1) = point1;
-        return true;
       }
-      else if (point0.isApprox(point2, tolerance))
+      else if (distance12 >= distance20)
       {
-        segment_out.vertex(0) = point0;
-        segment_out.vertex(1) = point1;
-        return true;
+        segment_out.vertex(0) = point1;
+        segment_out.vertex(1) = point2;
       }
       else
       {
-        ACME_ERROR(CMD "exception not handled.")
+        segment_out.vertex(0) = point2;
+        segment_out.vertex(1) = point0;
       }
+      return true;
     }
     else
     {
-- 
2.43.0


From 13dc5e8a248e7dfa6505e54ed168767f1b1ddd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:16 +0000
Subject: [PATCH 21/78] fix: sampling contact normal pointed downwards for a
 wheel turned over its axle

---
 src/rib.cc         | 4 ++++
 toolbox/src/rib.cc | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/rib.cc b/src/rib.cc
index bce6118..1fbaa6a 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -417,6 +417,8 @@ namespace enve
     // Compute output point and normal
     out.point  = (point_vec[0] + point_vec[1] + point_vec[2] + point_vec[3]) / real(4.0);
     out.normal = ((point_vec[0] - point_vec[1]).cross(point_vec[2] - point_vec[3])).normalized();
+    if (out.normal.z() < real(0.0))
+      {out.normal *= real(-1.0);}
 
     // Compute contact pose
     vec3 e_y = rotation.col(1).normalized();
@@ -487,6 +489,8 @@ namespace enve
     // Compute output point and normal
     out.point  = (point_vec[0] + point_vec[1] + point_vec[2] + point_vec[3]) / real(4.0);
     out.normal = ((point_vec[0] - point_vec[1]).cross(point_vec[2] - point_vec[3])).normalized();
+    if (out.normal.z() < real(0.0))
+      {out.normal *= real(-1.0);}
 
     // Compute contact pose
     vec3 e_y = rotation.col(1).normalized();
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index bce6118..1fbaa6a 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -417,6 +417,8 @@ namespace enve
     // Compute output point and normal
     out.point  = (point_vec[0] + point_vec[1] + point_vec[2] + point_vec[3]) / real(4.0);
     out.normal = ((point_vec[0] - point_vec[1]).cross(point_vec[2] - point_vec[3])).normalized();
+    if (out.normal.z() < real(0.0))
+      {out.normal *= real(-1.0);}
 
     // Compute contact pose
     vec3 e_y = rotation.col(1).normalized();
@@ -487,6 +489,8 @@ namespace enve
     // Compute output point and normal
     out.point  = (point_vec[0] + point_vec[1] + point_vec[2] + point_vec[3]) / real(4.0);
     out.normal = ((point_vec[0] - point_vec[1]).cross(point_vec[2] - point_vec[3])).normalized();
+    if (out.normal.z() < real(0.0))
+      {out.normal *= real(-1.0);}
 
     // Compute contact pose
     vec3 e_y = rotation.col(1).normalized();
-- 
2.43.0


From 636b1493e2b6a5945a766db6f557d32dd08dfb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:36 +0000
Subject: [PATCH 22/78] fix: the rib inclination was subtracted from the yaw
 instead of the camber relative angle

---
 src/shell.cc         | 2 +-
 toolbox/src/shell.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shell.cc b/src/shell.cc
index 71c0b31..5b5efbb 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -877,7 +877,7 @@ namespace enve
     this->contactPointAffine(i, pose);
     mat3 rotation(pose.linear().transpose() * this->m_affine.linear());
     angles = rotation.eulerAngles(2, 0, 1);
-    angles.x() -= this->m_ribs[i].angle();
+    angles.y() -= this->m_ribs[i].angle();
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 71c0b31..5b5efbb 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -877,7 +877,7 @@ namespace enve
     this->contactPointAffine(i, pose);
     mat3 rotation(pose.linear().transpose() * this->m_affine.linear());
     angles = rotation.eulerAngles(2, 0, 1);
-    angles.x() -= this->m_ribs[i].angle();
+    angles.y() -= this->m_ribs[i].angle();
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 3a1c8298fef553d7f2ec9e30985cf50ae719300a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:36 +0000
Subject: [PATCH 23/78] fix: a mesh touching a rib only along its radius gave
 NaN contact outputs

---
 src/rib.cc         | 3 ++-
 toolbox/src/rib.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rib.cc b/src/rib.cc
index 1fbaa6a..c063a71 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -309,7 +309,8 @@ namespace enve
     }
 
     // Store output
-    if (int_bool && (segment_area_tot > EPSILON_ENVE || segment_volume_tot > EPSILON_ENVE))
+    if (int_bool && segment_volume_tot > real(0.0) &&
+        (segment_area_tot > EPSILON_ENVE || segment_volume_tot > EPSILON_ENVE))
     {
       out.point    = contact_point_tot    / segment_volume_tot;
       out.normal   = (contact_normal_tot  / segment_volume_tot).normalized();
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index 1fbaa6a..c063a71 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -309,7 +309,8 @@ namespace enve
     }
 
     // Store output
-    if (int_bool && (segment_area_tot > EPSILON_ENVE || segment_volume_tot > EPSILON_ENVE))
+    if (int_bool && segment_volume_tot > real(0.0) &&
+        (segment_area_tot > EPSILON_ENVE || segment_volume_tot > EPSILON_ENVE))
     {
       out.point    = contact_point_tot    / segment_volume_tot;
       out.normal   = (contact_normal_tot  / segment_volume_tot).normalized();
-- 
2.43.0


From a9d8308b2298bea03f928afdea0e2e30d2b60f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:36 +0000
Subject: [PATCH 24/78] fix: an S-function step without initialization
 dereferenced null pointers

---
 sfun/src_sfun/enve_sfun_interface.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sfun/src_sfun/enve_sfun_interface.cc b/sfun/src_sfun/enve_sfun_interface.cc
index 023b99d..07e40b2 100755
--- a/sfun/src_sfun/enve_sfun_interface.cc
+++ b/sfun/src_sfun/enve_sfun_interface.cc
@@ -118,6 +118,9 @@ extern "C"
     enve::ground::flat *flat  = static_cast<enve::ground::flat *>(FlatPtr);
     enve::shell        *shell = static_cast<enve::shell *>(ShellPtr);
 
+    if (mesh == nullptr || flat == nullptr || shell == nullptr)
+      {ENVE_ERROR(CMD "enve_sfun_init(...) has not been called.");}
+
     // Store temporaries
     int size = shell->size();
 
-- 
2.43.0


From 5029040a7103b3913e9d3ed510ae1e0d9ca56ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:36 +0000
Subject: [PATCH 25/78] fix: the S-function end released nothing and
 initializing again leaked

---
 sfun/src_sfun/enve_sfun_interface.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sfun/src_sfun/enve_sfun_interface.cc b/sfun/src_sfun/enve_sfun_interface.cc
index 07e40b2..d10ad38 100755
--- a/sfun/src_sfun/enve_sfun_interface.cc
+++ b/sfun/src_sfun/enve_sfun_interface.cc
@@ -96,7 +96,8 @@ extern "C"
       *Ly
     );
 
-    // Store pointers
+    // Store pointers, releasing those of a previous initialization
+    enve_sfun_end();
     MeshPtr  = static_cast<void *>(mesh);
     FlatPtr  = static_cast<void *>(flat);
     ShellPtr = static_cast<void *>(shell);
@@ -218,9 +219,12 @@ extern "C"
   {
     #define CMD "enve_sfun_end(...): "
 
-    //delete static_cast<enve::ground::mesh *>(MeshPtr);
-    //delete static_cast<enve::ground::flat *>(FlatPtr);
-    //delete static_cast<enve::flat *>(ShellPtr);
+    delete static_cast<enve::ground::mesh *>(MeshPtr);
+    delete static_cast<enve::ground::flat *>(FlatPtr);
+    delete static_cast<enve::shell *>(ShellPtr);
+    MeshPtr  = nullptr;
+    FlatPtr  = nullptr;
+    ShellPtr = nullptr;
 
     #undef CMD
   }
-- 
2.43.0


From f83eb152fa3703d802c5a5d3e2103cd0e9d75666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:02 +0000
Subject: [PATCH 26/78] fix: distance of a point from a flat box was NaN

---
 toolbox/src/aabb.cc | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/toolbox/src/aabb.cc b/toolbox/src/aabb.cc
index 5905b90..9230a23 100644
--- a/toolbox/src/aabb.cc
+++ b/toolbox/src/aabb.cc
@@ -320,15 +320,9 @@ namespace acme
   )
     const
   {
-    point center((this->m_max + this->m_min) / real(2.0));
-    point point_max_centered(this->m_max - center);
-    point point_centered(point_in - center);
-    real  x_scale = std::abs(real(1.0) / point_max_centered.x());
-    real  y_scale = std::abs(real(1.0) / point_max_centered.y());
-    real  z_scale = std::abs(real(1.0) / point_max_centered.z());
-    real  dx      = std::max(real(0.0), std::abs(point_centered.x()) * x_scale - real(1.0)) / x_scale;
-    real  dy      = std::max(real(0.0), std::abs(point_centered.y()) * y_scale - real(1.0)) / y_scale;
-    real  dz      = std::max(real(0.0), std::abs(point_centered.z()) * z_scale - real(1.0)) / z_scale;
+    real dx = std::max(real(0.0), std::max(this->m_min.x() - point_in.x(), point_in.x() - this->m_max.x()));
+    real dy = std::max(real(0.0), std::max(this->m_min.y() - point_in.y(), point_in.y() - this->m_max.y()));
+    real dz = std::max(real(0.0), std::max(this->m_min.z() - point_in.z(), point_in.z() - this->m_max.z()));
     return std::sqrt(dx * dx + dy * dy + dz * dz);
   }
 
-- 
2.43.0


From 1a8161abbb12051f5440ceb32d3ca9388b1ea756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:02 +0000
Subject: [PATCH 27/78] fix: the collision query of an empty box tree
 dereferenced a null pointer

---
 toolbox/src/acme/AABBtree.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toolbox/src/acme/AABBtree.hxx b/toolbox/src/acme/AABBtree.hxx
index 5a0dae1..664dbad 100644
--- a/toolbox/src/acme/AABBtree.hxx
+++ b/toolbox/src/acme/AABBtree.hxx
@@ -106,6 +106,10 @@ namespace acme
       const
     {
 
+      // Nothing can collide with an empty tree
+      if (this->isEmpty() || tree.isEmpty())
+        {return false;}
+
       // check aabb with
       if (!tree.m_ptrbox->intersects(*this->m_ptrbox))
         {return false;}
-- 
2.43.0


From 4bc49ef6e69255b333f16fc0b5205b70f6442caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:12 +0000
Subject: [PATCH 28/78] fix: a ray starting on a plane or disk was reported as
 missing it

---
 toolbox/src/intersection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index c9465c9..33b96cf 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -2508,7 +2508,7 @@ namespace acme
     if (std::abs(det) > tolerance)
     {
       real t = -(origin - plane_in.origin()).dot(plane_in.normal()) / det;
-      if (t > tolerance)
+      if (t >= real(0.0) - tolerance)
       {
         point_out = origin + t * direction;
         return true;
-- 
2.43.0


From ea94a14c291d886ed6f9096a3106c4a943b2ad1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:05 +0000
Subject: [PATCH 29/78] fix: the intersection line of two planes with non-unit
 normals was misplaced

---
 toolbox/src/intersection.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 33b96cf..0fb7429 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -2283,8 +2283,8 @@ namespace acme
   {
     vec3 normal0(plane0_in.normal().normalized());
     vec3 normal1(plane1_in.normal().normalized());
-    real d0 = -plane0_in.d();
-    real d1 = -plane1_in.d();
+    real d0 = plane0_in.origin().dot(normal0);
+    real d1 = plane1_in.origin().dot(normal1);
 
     vec3 direction = normal0.cross(normal1);
     real dot       = normal0.dot(normal1);
-- 
2.43.0


From 8b1fa202d8f62e18253f345c4de9429a7feac6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:42 +0000
Subject: [PATCH 30/78] fix: collinearity of two rays compared a direction with
 itself

---
 toolbox/src/collinear.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/collinear.cc b/toolbox/src/collinear.cc
index d9f0ee7..978b13a 100644
--- a/toolbox/src/collinear.cc
+++ b/toolbox/src/collinear.cc
@@ -160,7 +160,7 @@ namespace acme
     real        tolerance)
   {
     return IsParallel(ray0_in.direction(), ray0_in.origin()-ray1_in.origin(), tolerance) &&
-           IsParallel(ray1_in.direction(), ray1_in.direction(), tolerance);
+           IsParallel(ray0_in.direction(), ray1_in.direction(), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 8c6959dc11c3fd8cf5ec3743a8754569850d770f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:42 +0000
Subject: [PATCH 31/78] fix: skew lines, rays and segments were reported as
 crossing in a point

---
 toolbox/src/intersection.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 0fb7429..24f4f36 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -1623,6 +1623,8 @@ namespace acme
       vec3  direction_1(line1_in.direction());
 
       vec3 a(direction_0.cross(direction_1));
+      if (std::abs((origin_1 - origin_0).dot(a)) > tolerance * a.norm())
+        {return false;} // skew lines
       vec3 b((origin_1 - origin_0).cross(direction_1));
       real t    = b.dot(a) / a.dot(a);
       point_out = origin_0 + (t * direction_0);
@@ -1652,6 +1654,8 @@ namespace acme
       vec3  direction_1(ray1_in.direction());
 
       vec3 a_0(direction_0.cross(direction_1));
+      if (std::abs((origin_1 - origin_0).dot(a_0)) > tolerance * a_0.norm())
+        {return false;} // skew lines
       vec3 b_0((origin_1 - origin_0).cross(direction_1));
       real t0 = b_0.dot(a_0) / a_0.dot(a_0);
 
@@ -1688,6 +1692,8 @@ namespace acme
       vec3  direction_1(segment1_in.toVector());
 
       vec3 a_0(direction_0.cross(direction_1));
+      if (std::abs((origin_1 - origin_0).dot(a_0)) > tolerance * a_0.norm())
+        {return false;} // skew lines
       vec3 b_0((origin_1 - origin_0).cross(direction_1));
       real t0 = b_0.dot(a_0) / a_0.dot(a_0);
 
@@ -1724,6 +1730,8 @@ namespace acme
       vec3  direction_1(ray_in.direction());
 
       vec3 a_0(direction_0.cross(direction_1));
+      if (std::abs((origin_1 - origin_0).dot(a_0)) > tolerance * a_0.norm())
+        {return false;} // skew lines
       vec3 b_0((origin_1 - origin_0).cross(direction_1));
       real t0 = b_0.dot(a_0) / a_0.dot(a_0);
 
@@ -1760,6 +1768,8 @@ namespace acme
       vec3  direction_1(segment_in.toVector());
 
       vec3 a_0(direction_0.cross(direction_1));
+      if (std::abs((origin_1 - origin_0).dot(a_0)) > tolerance * a_0.norm())
+        {return false;} // skew lines
       vec3 b_0((origin_1 - origin_0).cross(direction_1));
       real t0 = b_0.dot(a_0) / a_0.dot(a_0);
 
@@ -1796,6 +1806,8 @@ namespace acme
       vec3  direction_1(segment_in.toVector());
 
       vec3 a_0(direction_0.cross(direction_1));
+      if (std::abs((origin_1 - origin_0).dot(a_0)) > tolerance * a_0.norm())
+        {return false;} // skew lines
       vec3 b_0((origin_1 - origin_0).cross(direction_1));
       real t0 = b_0.dot(a_0) / a_0.dot(a_0);
 
-- 
2.43.0


From 3cf48a46f9d1459423b9657c07da62b853d332cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:42 +0000
Subject: [PATCH 32/78] fix: the part of a segment in a ball was wrong unless
 the segment had length one

---
 toolbox/src/intersection.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 24f4f36..8db46db 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -2796,22 +2796,23 @@ namespace acme
   )
   {
     vec3 origin(segment_in.vertex(0));
-    vec3 direction(segment_in.toVector());
+    vec3 direction(segment_in.toUnitVector());
     vec3 diff(origin - ball_in.center());
-    real a0    = diff.dot(diff) - ball_in.radius() * ball_in.radius();
-    real a1    = direction.dot(diff);
-    real discr = a1 * a1 - a0;
+    real length = segment_in.length();
+    real a0     = diff.dot(diff) - ball_in.radius() * ball_in.radius();
+    real a1     = direction.dot(diff);
+    real discr  = a1 * a1 - a0;
     if (discr > tolerance)
     {
       real root = std::sqrt(discr);
       real t0   = -a1 - root;
       real t1   = -a1 + root;
-      if ((t0 < real(0.0) && t1 < real(0.0)) || (t0 > real(1.0) && t1 > real(1.0)))
+      if ((t0 < real(0.0) && t1 < real(0.0)) || (t0 > length && t1 > length))
         {return false;}
       t0 = std::max(t0, real(0.0));
-      t0 = std::min(t0, real(1.0));
+      t0 = std::min(t0, length);
       t1 = std::max(t1, real(0.0));
-      t1 = std::min(t1, real(1.0));
+      t1 = std::min(t1, length);
       segment_out.vertex(0) = origin + t0 * direction;
       segment_out.vertex(1) = origin + t1 * direction;
       return true;
-- 
2.43.0


From e35c195f43d2ed14a33a4726802d3b2772be38cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:20 +0000
Subject: [PATCH 33/78] fix: the generic intersection of a plane and a disk
 wrote through a null pointer

---
 toolbox/src/intersection.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 8db46db..be9a082 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -837,7 +837,8 @@ namespace acme
         break;
 
       case 508:
-        collide = Intersection(
+        entity_out = new segment();
+        collide    = Intersection(
           *dynamic_cast<plane const *>(entity0_in),
           *dynamic_cast<disk const *>(entity1_in),
           *dynamic_cast<segment *>(entity_out),
-- 
2.43.0


From 721c2e5253b5f6f5d5407d2797c0dcbb1095464b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:32 +0000
Subject: [PATCH 34/78] fix: the generic intersection of a triangle and its
 plane found nothing in one argument order

---
 toolbox/src/intersection.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index be9a082..68d0ca5 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -556,11 +556,11 @@ namespace acme
         break;
 
       case 705:
-        entity_out = new segment();
+        entity_out = new triangle();
         collide    = Intersection(
           *dynamic_cast<plane const *>(entity1_in),
           *dynamic_cast<triangle const *>(entity0_in),
-          *dynamic_cast<segment *>(entity_out),
+          *dynamic_cast<triangle *>(entity_out),
           tolerance);
         break;
 
-- 
2.43.0


From 1dbcc3e3c23909e6243edcc4dee4c09cfd5bc879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:42 +0000
Subject: [PATCH 35/78] fix: the generic intersection of disjoint collinear
 rays threw an error

---
 toolbox/src/intersection.cc | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 68d0ca5..9db056a 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -253,12 +253,6 @@ namespace acme
           *dynamic_cast<ray const *>(entity1_in),
           *dynamic_cast<segment *>(entity_out),
           tolerance);
-        if (!collide)
-          {delete entity_out;}
-        else
-          {break;}
-
-        ACME_ERROR(CMD "exception not handled (ray/ray intersection).")
         break;
 
       case 406:
-- 
2.43.0


From 27a3a4a46b7b31e4a2d0dd3104ceebdb97a8f2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:21 +0000
Subject: [PATCH 36/78] fix: overlapping coplanar triangles without a vertex in
 the other were reported apart

---
 toolbox/src/intersection.cc | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 9db056a..66585b4 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -1866,12 +1866,25 @@ namespace acme
     if (!IsCoplanar(triangle0_in, triangle1_in, tolerance)) {
       return Intersection(triangle0_in, triangle1_in, DUMMY_SEGMENT, tolerance);
     }
-    return triangle0_in.isInside(triangle1_in.vertex(0), tolerance) ||
-           triangle0_in.isInside(triangle1_in.vertex(1), tolerance) ||
-           triangle0_in.isInside(triangle1_in.vertex(2), tolerance) ||
-           triangle1_in.isInside(triangle0_in.vertex(0), tolerance) ||
-           triangle1_in.isInside(triangle0_in.vertex(1), tolerance) ||
-           triangle1_in.isInside(triangle0_in.vertex(2), tolerance);
+    if (triangle0_in.isInside(triangle1_in.vertex(0), tolerance) ||
+        triangle0_in.isInside(triangle1_in.vertex(1), tolerance) ||
+        triangle0_in.isInside(triangle1_in.vertex(2), tolerance) ||
+        triangle1_in.isInside(triangle0_in.vertex(0), tolerance) ||
+        triangle1_in.isInside(triangle0_in.vertex(1), tolerance) ||
+        triangle1_in.isInside(triangle0_in.vertex(2), tolerance))
+      {return true;}
+
+    // The triangles may overlap without any vertex inside the other
+    point crossing;
+    for (size_t i = 0; i < 3; ++i)
+    {
+      for (size_t j = 0; j < 3; ++j)
+      {
+        if (Intersection(triangle0_in.edge(i), triangle1_in.edge(j), crossing, tolerance))
+          {return true;}
+      }
+    }
+    return false;
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 9f604f226cd1683df958ea824e59aed1c9509310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 37/78] fix: a line along the normal of a plane was not
 orthogonal to it

---
 toolbox/src/orthogonal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/orthogonal.cc b/toolbox/src/orthogonal.cc
index 8af59fa..d36c7df 100644
--- a/toolbox/src/orthogonal.cc
+++ b/toolbox/src/orthogonal.cc
@@ -512,7 +512,7 @@ namespace acme
     real          tolerance
   )
   {
-    return IsOrthogonal(line_in.direction(), plane_in.normal(), tolerance);
+    return IsParallel(line_in.direction(), plane_in.normal(), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 9e9226fae8d7a22c87d0cf6ca86daf4643249db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 38/78] fix: parallel lines and points near a plane's origin
 were not coplanar with it by rounding

---
 toolbox/src/coplanar.cc | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/toolbox/src/coplanar.cc b/toolbox/src/coplanar.cc
index 0b96d2b..b079c69 100644
--- a/toolbox/src/coplanar.cc
+++ b/toolbox/src/coplanar.cc
@@ -344,7 +344,7 @@ namespace acme
     real         tolerance
   )
   {
-    return (line0_in.origin() - line1_in.origin()).isOrthogonal(line0_in.direction().cross(line1_in.direction()), tolerance);
+    return IsOrthogonal(line0_in.origin() - line1_in.origin(), line0_in.direction().cross(line1_in.direction()), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -356,7 +356,7 @@ namespace acme
     real        tolerance
   )
   {
-    return (ray0_in.origin() - ray1_in.origin()).isOrthogonal(ray0_in.direction().cross(ray1_in.direction()), tolerance);
+    return IsOrthogonal(ray0_in.origin() - ray1_in.origin(), ray0_in.direction().cross(ray1_in.direction()), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -381,7 +381,7 @@ namespace acme
     real            tolerance
   )
   {
-    return (segment0_in.vertex(0) - segment1_in.vertex(0)).isOrthogonal(segment0_in.toUnitVector().cross(segment1_in.toUnitVector()), tolerance);
+    return IsOrthogonal(segment0_in.vertex(0) - segment1_in.vertex(0), segment0_in.toUnitVector().cross(segment1_in.toUnitVector()), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -417,7 +417,7 @@ namespace acme
     real         tolerance
   )
   {
-    return (line_in.origin() - ray_in.origin()).isOrthogonal(line_in.direction().cross(ray_in.direction()), tolerance);
+    return IsOrthogonal(line_in.origin() - ray_in.origin(), line_in.direction().cross(ray_in.direction()), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -429,8 +429,8 @@ namespace acme
     real          tolerance
   )
   {
-    return line_in.direction().isOrthogonal(plane_in.normal(), tolerance) &&
-           plane_in.normal().isOrthogonal(line_in.origin() - plane_in.origin(), tolerance);
+    return IsOrthogonal(line_in.direction(), plane_in.normal(), tolerance) &&
+           IsOrthogonal(plane_in.normal(), line_in.origin() - plane_in.origin(), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -442,7 +442,7 @@ namespace acme
     real            tolerance
   )
   {
-    return (line_in.origin() - segment_in.vertex(0)).isOrthogonal(line_in.direction().cross(segment_in.toUnitVector()), tolerance);
+    return IsOrthogonal(line_in.origin() - segment_in.vertex(0), line_in.direction().cross(segment_in.toUnitVector()), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -478,8 +478,8 @@ namespace acme
     real          tolerance
   )
   {
-    return ray_in.direction().isOrthogonal(plane_in.normal(), tolerance) &&
-           plane_in.normal().isOrthogonal(ray_in.origin() - plane_in.origin(), tolerance);
+    return IsOrthogonal(ray_in.direction(), plane_in.normal(), tolerance) &&
+           IsOrthogonal(plane_in.normal(), ray_in.origin() - plane_in.origin(), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -491,7 +491,7 @@ namespace acme
     real            tolerance
   )
   {
-    return (ray_in.origin() - segment_in.vertex(0)).isOrthogonal(ray_in.direction().cross(segment_in.toUnitVector()), tolerance);
+    return IsOrthogonal(ray_in.origin() - segment_in.vertex(0), ray_in.direction().cross(segment_in.toUnitVector()), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -527,8 +527,8 @@ namespace acme
     real            tolerance
   )
   {
-    return segment_in.toUnitVector().isOrthogonal(plane_in.normal(), tolerance) &&
-           plane_in.normal().isOrthogonal(segment_in.vertex(0)-plane_in.origin(), tolerance);
+    return IsOrthogonal(segment_in.toUnitVector(), plane_in.normal(), tolerance) &&
+           IsOrthogonal(plane_in.normal(), segment_in.vertex(0)-plane_in.origin(), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 5c6c3c3ffe6c0c373502e8014a09f3bab9290be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 39/78] fix: the area and the perimeter of a disk were
 exchanged

---
 toolbox/src/disk.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/src/disk.cc b/toolbox/src/disk.cc
index 8b78724..ee4b409 100644
--- a/toolbox/src/disk.cc
+++ b/toolbox/src/disk.cc
@@ -193,7 +193,7 @@ namespace acme
   disk::perimeter(void)
     const
   {
-    return PI * this->m_radius * this->m_radius;
+    return real(2.0) * PI * this->m_radius;
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -202,7 +202,7 @@ namespace acme
   disk::area(void)
     const
   {
-    return real(2.0) * PI * this->m_radius;
+    return PI * this->m_radius * this->m_radius;
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 42ab088212d18b0a5f0d1afe48ce0ee70ff0a40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 40/78] fix: the distance of a point from a plane with a
 non-unit normal was scaled

---
 toolbox/src/plane.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/plane.cc b/toolbox/src/plane.cc
index 954b217..1635f3a 100644
--- a/toolbox/src/plane.cc
+++ b/toolbox/src/plane.cc
@@ -189,7 +189,7 @@ namespace acme
   )
     const
   {
-    return (point_in - this->m_origin).dot(this->m_normal);
+    return (point_in - this->m_origin).dot(this->m_normal) / this->m_normal.norm();
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From a4dd96916b889dc789089351042a82c988224090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 41/78] fix: a point without coordinates was left uninitialised
 instead of undefined

---
 toolbox/src/point.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/point.cc b/toolbox/src/point.cc
index b75f576..e8abcb5 100644
--- a/toolbox/src/point.cc
+++ b/toolbox/src/point.cc
@@ -49,7 +49,7 @@ namespace acme
 
   point::point(void)
   {
-    this->Constant(QUIET_NAN);
+    this->setConstant(QUIET_NAN);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From c0c6388d2ec21288ea81bcbdafd449d1e3d1ea5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 42/78] fix: the angle between parallel vectors was not a
 number by rounding

---
 toolbox/src/math.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toolbox/src/math.cc b/toolbox/src/math.cc
index 81640e2..041da11 100644
--- a/toolbox/src/math.cc
+++ b/toolbox/src/math.cc
@@ -76,7 +76,8 @@ namespace acme
     vec3 const & vector1_in
   )
   {
-    return std::acos(vector0_in.dot(vector1_in)/(vector0_in.norm()*vector1_in.norm()));
+    real cosine = vector0_in.dot(vector1_in)/(vector0_in.norm()*vector1_in.norm());
+    return std::acos(std::max(real(-1.0), std::min(real(1.0), cosine)));
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 2e0b320c831c34170d784f761f888dbf96c94f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 43/78] fix: rotating an entity about a non-unit axis deformed
 it

---
 toolbox/src/entity.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/entity.cc b/toolbox/src/entity.cc
index 8273345..32c9258 100644
--- a/toolbox/src/entity.cc
+++ b/toolbox/src/entity.cc
@@ -66,7 +66,7 @@ namespace acme
   )
   {
     affine tranformation(IDENTITY_MAT4);
-    tranformation.rotate(angleaxis(angle, axis));
+    tranformation.rotate(angleaxis(angle, axis.normalized()));
     this->transform(tranformation);
   }
 
-- 
2.43.0


From a48d185237418c6af9da019a9d97a6df35f98076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 44/78] fix: rotating a shell about a non-unit axis made its
 pose non-rigid

---
 src/shell.cc         | 2 +-
 toolbox/src/shell.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shell.cc b/src/shell.cc
index 5b5efbb..817e9a3 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -286,7 +286,7 @@ namespace enve
     vec3 const & axis
   )
   {
-    this->m_affine.rotate(angleaxis(angle, axis));
+    this->m_affine.rotate(angleaxis(angle, axis.normalized()));
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 5b5efbb..817e9a3 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -286,7 +286,7 @@ namespace enve
     vec3 const & axis
   )
   {
-    this->m_affine.rotate(angleaxis(angle, axis));
+    this->m_affine.rotate(angleaxis(angle, axis.normalized()));
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 9423171ce2396970c4a184b902b0700a82c4c9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:35 +0000
Subject: [PATCH 45/78] fix: removing entities from a collection left it at its
 size with moved-from entities

---
 toolbox/src/collection.cc | 88 +++++++++++++++++++++++++++------------
 1 file changed, 62 insertions(+), 26 deletions(-)

diff --git a/toolbox/src/collection.cc b/toolbox/src/collection.cc
index d1efa19..3488ed6 100644
--- a/toolbox/src/collection.cc
+++ b/toolbox/src/collection.cc
@@ -195,10 +195,13 @@ namespace acme
   void
   collection::removeNone(void)
   {
-    std::remove_if(
-      this->m_entities.begin(),
-      this->m_entities.end(),
-      [] (entity::ptr & entity) {return entity->isNone();}
+    this->m_entities.erase(
+      std::remove_if(
+        this->m_entities.begin(),
+        this->m_entities.end(),
+        [] (entity::ptr & entity) {return entity->isNone();}
+      ),
+      this->m_entities.end()
     );
   }
 
@@ -261,11 +264,14 @@ namespace acme
   void
   collection::removePoint(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isPoint();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -327,11 +333,14 @@ namespace acme
   void
   collection::removeLine(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isLine();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -393,11 +402,14 @@ namespace acme
   void
   collection::removeRay(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isRay();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -458,11 +470,14 @@ namespace acme
   void
   collection::removePlane(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isPlane();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -524,11 +539,14 @@ namespace acme
   void
   collection::removeSegment(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isSegment();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -590,11 +608,14 @@ namespace acme
   void
   collection::removeTriangle(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isTriangle();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -656,11 +677,14 @@ namespace acme
   void
   collection::removeDisk(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isDisk();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -722,11 +746,14 @@ namespace acme
   void
   collection::removeBall(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isBall();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -795,11 +822,14 @@ namespace acme
     real tolerance
   )
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [tolerance](entity::ptr & entity){return entity->isDegenerated(tolerance);}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -863,11 +893,14 @@ namespace acme
   void
   collection::removeClampable(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isClampable();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -929,11 +962,14 @@ namespace acme
   void
   collection::removeNonClampable(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isNonClampable();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 8b9a76c0b7d74127755495eb4bb7c345fa53c541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:35 +0000
Subject: [PATCH 46/78] fix: a collection of segments only was not recognised

---
 toolbox/src/collection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/collection.cc b/toolbox/src/collection.cc
index 3488ed6..62b7250 100644
--- a/toolbox/src/collection.cc
+++ b/toolbox/src/collection.cc
@@ -517,7 +517,7 @@ namespace acme
   {
     for (size_t i = 0; i < this->m_entities.size(); ++i)
     {
-      if (!this->m_entities[i]->isBall())
+      if (!this->m_entities[i]->isSegment())
         {return false;}
     }
     return true;
-- 
2.43.0


From 49c82800a887b56468f309bf5ef814ffce415255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:35 +0000
Subject: [PATCH 47/78] fix: a collection contained degenerated entities only
 if all were

---
 toolbox/src/collection.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toolbox/src/collection.cc b/toolbox/src/collection.cc
index 62b7250..77a22cb 100644
--- a/toolbox/src/collection.cc
+++ b/toolbox/src/collection.cc
@@ -781,10 +781,10 @@ namespace acme
   {
     for (size_t i = 0; i < this->m_entities.size(); ++i)
     {
-      if (!this->m_entities[i]->isDegenerated(tolerance))
-        {return false;}
+      if (this->m_entities[i]->isDegenerated(tolerance))
+        {return true;}
     }
-    return true;
+    return false;
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 85f6ed017a0a64434bcb201e56c695c021a1210e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:35 +0000
Subject: [PATCH 48/78] fix: the count of non-clampable entities counted the
 others

---
 toolbox/src/collection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/collection.cc b/toolbox/src/collection.cc
index 77a22cb..f857470 100644
--- a/toolbox/src/collection.cc
+++ b/toolbox/src/collection.cc
@@ -981,7 +981,7 @@ namespace acme
     integer count = 0;
     for (size_t i = 0; i < this->m_entities.size(); ++i)
     {
-      if (!this->m_entities[i]->isNonClampable())
+      if (this->m_entities[i]->isNonClampable())
         {++count;}
     }
     return count;
-- 
2.43.0


From fb45ca100f4666abfb84b461bd688e08e731446c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:35 +0000
Subject: [PATCH 49/78] fix: querying a cleared collection read entities it no
 longer had

---
 toolbox/src/collection.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toolbox/src/collection.cc b/toolbox/src/collection.cc
index f857470..f7e4af7 100644
--- a/toolbox/src/collection.cc
+++ b/toolbox/src/collection.cc
@@ -68,6 +68,7 @@ namespace acme
   collection::clear(void)
   {
     this->m_entities.clear();
+    this->m_AABBtree = std::make_shared<AABBtree>();
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 5f4b3079ddfa8630789701b880ef0256258a3f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 50/78] fix: indexing a copied collection replaced the index of
 the original

---
 toolbox/src/collection.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toolbox/src/collection.cc b/toolbox/src/collection.cc
index f7e4af7..62ac098 100644
--- a/toolbox/src/collection.cc
+++ b/toolbox/src/collection.cc
@@ -1053,6 +1053,7 @@ namespace acme
   {
     aabb::vecptr ptrVecbox;
     this->clamp(ptrVecbox);
+    this->m_AABBtree = std::make_shared<AABBtree>();
     this->m_AABBtree->build(ptrVecbox);
   }
 
-- 
2.43.0


From 833196d10b033cc2d7c0c86c07d4d0d51a9f0e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 51/78] fix: MEX functions refuse a null object handle

---
 toolbox/src_mex/mex_utils.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src_mex/mex_utils.hh b/toolbox/src_mex/mex_utils.hh
index f1aa19a..2fdbb38 100644
--- a/toolbox/src_mex/mex_utils.hh
+++ b/toolbox/src_mex/mex_utils.hh
@@ -450,7 +450,7 @@ namespace utils {
     mex_class_handle<base> * ptr = reinterpret_cast<mex_class_handle<base> *>(
       *((uint64_t *)mxGetData(in))
     );
-    if ( !ptr->is_valid() ) mexErrMsgTxt( "Handle not valid." );
+    if ( ptr == nullptr || !ptr->is_valid() ) mexErrMsgTxt( "Handle not valid." );
     return ptr;
   }
 
-- 
2.43.0


From aaa875a8cde8eb4b5852bbe8c4a53ccfbb5e375f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 52/78] fix: MEX functions refuse vectors and matrices that are
 not of class double

---
 toolbox/src_mex/mex_utils.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/toolbox/src_mex/mex_utils.hh b/toolbox/src_mex/mex_utils.hh
index 2fdbb38..d447e5e 100644
--- a/toolbox/src_mex/mex_utils.hh
+++ b/toolbox/src_mex/mex_utils.hh
@@ -262,6 +262,10 @@ namespace utils {
       msg << " expected (1 x n or n x 1 or empty) matrix, found "
           << dims[0] << " x " << dims[1] << "\n"
       );
+    UTILS_MEX_ASSERT(
+      mxIsDouble(arg),
+      msg << " expected a double matrix, found " << mxGetClassName(arg) << "\n"
+      );
     sz = dims[0]*dims[1];
     return mxGetPr(arg);
   }
@@ -296,6 +300,10 @@ namespace utils {
       msg
       );
     mwSize const * dims = mxGetDimensions(arg);
+    UTILS_MEX_ASSERT(
+      mxIsDouble(arg),
+      msg << " expected a double matrix, found " << mxGetClassName(arg) << "\n"
+      );
     nr = dims[0];
     nc = dims[1];
     return mxGetPr(arg);
-- 
2.43.0


From fee34250e119221ad979f6160e14b78a42d5cdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 53/78] fix: MEX functions check both dimensions of vectors and
 matrices

---
 toolbox/src_mex/mex_flat.cc           |  8 ++++----
 toolbox/src_mex/mex_mesh.cc           |  2 +-
 toolbox/src_mex/mex_shell.cc          | 12 ++++++------
 toolbox/src_mex/mex_triangleground.cc |  6 +++---
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/toolbox/src_mex/mex_flat.cc b/toolbox/src_mex/mex_flat.cc
index 86c4b53..81344ee 100644
--- a/toolbox/src_mex/mex_flat.cc
+++ b/toolbox/src_mex/mex_flat.cc
@@ -146,14 +146,14 @@ do_new(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
     real_type const *matrix1_ptr;
     mwSize           rows1, cols1;
     matrix1_ptr = utils::mex_matrix_pointer(arg_in_2, rows1, cols1, CMD "error in first input matrix");
-    UTILS_MEX_ASSERT(rows1 == 3 || cols1 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows1 << ", cols = " << cols1 << "\n");
+    UTILS_MEX_ASSERT(rows1 == 3 && cols1 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows1 << ", cols = " << cols1 << "\n");
     ox = matrix1_ptr[0];
     oy = matrix1_ptr[1];
     oz = matrix1_ptr[2];
     real_type const *matrix2_ptr;
     mwSize           rows2, cols2;
     matrix2_ptr = utils::mex_matrix_pointer(arg_in_3, rows2, cols2, CMD "error in second input matrix");
-    UTILS_MEX_ASSERT(rows2 == 3 || cols2 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows2 << ", cols = " << cols2 << "\n");
+    UTILS_MEX_ASSERT(rows2 == 3 && cols2 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows2 << ", cols = " << cols2 << "\n");
     nx = matrix2_ptr[0];
     ny = matrix2_ptr[1];
     nz = matrix2_ptr[2];
@@ -203,7 +203,7 @@ do_setOrigin(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type const    *matrix_ptr;
   mwSize              rows, cols;
   matrix_ptr = utils::mex_matrix_pointer(arg_in_2, rows, cols, CMD "error in first input matrix");
-  UTILS_MEX_ASSERT(rows == 3 || cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 3 && cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
   self->origin() = acme::point(matrix_ptr[0], matrix_ptr[1], matrix_ptr[2]);
 #undef CMD
 }
@@ -239,7 +239,7 @@ do_setNormal(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type const    *matrix_ptr;
   mwSize              rows, cols;
   matrix_ptr = utils::mex_matrix_pointer(arg_in_2, rows, cols, CMD "error in first input matrix");
-  UTILS_MEX_ASSERT(rows == 3 || cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 3 && cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
   self->normal() = acme::vec3(matrix_ptr[0], matrix_ptr[1], matrix_ptr[2]);
 #undef CMD
 }
diff --git a/toolbox/src_mex/mex_mesh.cc b/toolbox/src_mex/mex_mesh.cc
index 23b77bc..79e4cfb 100644
--- a/toolbox/src_mex/mex_mesh.cc
+++ b/toolbox/src_mex/mex_mesh.cc
@@ -148,7 +148,7 @@ do_new(int nlhs, mxArray *plhs[],
       mwSize rows, cols;
       real_type const *matrix_ptr;
       matrix_ptr = utils::mex_matrix_pointer(arg_in_2, rows, cols, CMD "error in reading affine transformation matrix");
-      UTILS_MEX_ASSERT(rows == 4 || cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
+      UTILS_MEX_ASSERT(rows == 4 && cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
       acme::affine pose;
       pose.matrix() << matrix_ptr[0], matrix_ptr[4], matrix_ptr[8],  matrix_ptr[12],
                        matrix_ptr[1], matrix_ptr[5], matrix_ptr[9],  matrix_ptr[13],
diff --git a/toolbox/src_mex/mex_shell.cc b/toolbox/src_mex/mex_shell.cc
index 79df100..2d01a8d 100644
--- a/toolbox/src_mex/mex_shell.cc
+++ b/toolbox/src_mex/mex_shell.cc
@@ -403,7 +403,7 @@ do_translate(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type const *matrix_ptr;
   mwSize           rows, cols;
   matrix_ptr = utils::mex_matrix_pointer(arg_in_2, rows, cols, CMD "error in first input matrix");
-  UTILS_MEX_ASSERT(rows == 3 || cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 3 && cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
   real_type x = matrix_ptr[0];
   real_type y = matrix_ptr[1];
   real_type z = matrix_ptr[2];
@@ -443,7 +443,7 @@ do_rotate(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type const *vector_ptr;
   mwSize           rows, cols;
   vector_ptr = utils::mex_matrix_pointer(arg_in_3, rows, cols, CMD "error in reading axis vector");
-  UTILS_MEX_ASSERT(rows == 3 || cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 3 && cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
   acme::vec3 vector(vector_ptr[0], vector_ptr[1], vector_ptr[2]);
   self->rotate(angle, vector);
 #undef CMD
@@ -486,7 +486,7 @@ do_transform(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type const *matrix_ptr;
   mwSize           rows, cols;
   matrix_ptr = utils::mex_matrix_pointer(arg_in_2, rows, cols, CMD "error in reading affine transformation matrix");
-  UTILS_MEX_ASSERT(rows == 4 || cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 4 && cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
   acme::affine matrix;
   matrix.matrix() << matrix_ptr[0], matrix_ptr[4], matrix_ptr[8],  matrix_ptr[12],
                      matrix_ptr[1], matrix_ptr[5], matrix_ptr[9],  matrix_ptr[13],
@@ -540,7 +540,7 @@ do_checkTransformation(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[
   real_type const *matrix_ptr;
   mwSize           rows, cols;
   matrix_ptr = utils::mex_matrix_pointer(arg_in_2, rows, cols, CMD "error in reading affine transformation matrix");
-  UTILS_MEX_ASSERT(rows == 4 || cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 4 && cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
   acme::affine matrix;
   matrix.matrix() << matrix_ptr[0], matrix_ptr[4], matrix_ptr[8],  matrix_ptr[12],
                      matrix_ptr[1], matrix_ptr[5], matrix_ptr[9],  matrix_ptr[13],
@@ -638,7 +638,7 @@ do_setupFlat(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type const    *matrix_ptr;
   mwSize              rows, cols;
   matrix_ptr = utils::mex_matrix_pointer(arg_in_3, rows, cols, CMD "error in reading affine transformation matrix");
-  UTILS_MEX_ASSERT(rows == 4 || cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 4 && cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
   acme::affine matrix;
   matrix.matrix() << matrix_ptr[0], matrix_ptr[4], matrix_ptr[8],  matrix_ptr[12],
                      matrix_ptr[1], matrix_ptr[5], matrix_ptr[9],  matrix_ptr[13],
@@ -664,7 +664,7 @@ do_setupMesh(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type const    *matrix_ptr;
   mwSize              rows, cols;
   matrix_ptr = utils::mex_matrix_pointer(arg_in_3, rows, cols, CMD "error in reading affine transformation matrix");
-  UTILS_MEX_ASSERT(rows == 4 || cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 4 && cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
   acme::affine matrix;
   matrix.matrix() << matrix_ptr[0], matrix_ptr[4], matrix_ptr[8],  matrix_ptr[12],
                      matrix_ptr[1], matrix_ptr[5], matrix_ptr[9],  matrix_ptr[13],
diff --git a/toolbox/src_mex/mex_triangleground.cc b/toolbox/src_mex/mex_triangleground.cc
index 7ed1d99..b5abb94 100644
--- a/toolbox/src_mex/mex_triangleground.cc
+++ b/toolbox/src_mex/mex_triangleground.cc
@@ -169,21 +169,21 @@ do_new(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
     real_type const *matrix1_ptr;
     mwSize           rows1, cols1;
     matrix1_ptr = utils::mex_matrix_pointer(arg_in_3, rows1, cols1, CMD "error in reading 3rd input matrix");
-    UTILS_MEX_ASSERT(rows1 == 3 || cols1 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows1 << ", cols = " << cols1 << "\n");
+    UTILS_MEX_ASSERT(rows1 == 3 && cols1 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows1 << ", cols = " << cols1 << "\n");
     x1 = matrix1_ptr[0];
     y1 = matrix1_ptr[1];
     z1 = matrix1_ptr[2];
     real_type const *matrix2_ptr;
     mwSize           rows2, cols2;
     matrix2_ptr = utils::mex_matrix_pointer(arg_in_4, rows2, cols2, CMD "error in reading 4th input matrix");
-    UTILS_MEX_ASSERT(rows2 == 3 || cols2 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows2 << ", cols = " << cols2 << "\n");
+    UTILS_MEX_ASSERT(rows2 == 3 && cols2 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows2 << ", cols = " << cols2 << "\n");
     x2 = matrix2_ptr[0];
     y2 = matrix2_ptr[1];
     z2 = matrix2_ptr[2];
     real_type const *matrix3_ptr;
     mwSize           rows3, cols3;
     matrix3_ptr = utils::mex_matrix_pointer(arg_in_5, rows3, cols3, CMD "error in reading 5th input matrix");
-    UTILS_MEX_ASSERT(rows3 == 3 || cols3 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows3 << ", cols = " << cols3 << "\n");
+    UTILS_MEX_ASSERT(rows3 == 3 && cols3 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows3 << ", cols = " << cols3 << "\n");
     x3 = matrix3_ptr[0];
     y3 = matrix3_ptr[1];
     z3 = matrix3_ptr[2];
-- 
2.43.0


From 8d6377069c7d3d7cda21a000657b2222c7c1b901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 54/78] fix: MEX integer arguments of class int8 keep their
 sign

---
 toolbox/src_mex/mex_utils.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src_mex/mex_utils.hh b/toolbox/src_mex/mex_utils.hh
index d447e5e..9150718 100644
--- a/toolbox/src_mex/mex_utils.hh
+++ b/toolbox/src_mex/mex_utils.hh
@@ -199,7 +199,7 @@ namespace utils {
     int64_t res = 0;
     void *ptr = mxGetData(arg);
     switch (category)  {
-      case mxINT8_CLASS:   res = *static_cast<uint8_t*>(ptr); break;
+      case mxINT8_CLASS:   res = *static_cast<int8_t*>(ptr);  break;
       case mxUINT8_CLASS:  res = *static_cast<uint8_t*>(ptr);  break;
       case mxINT16_CLASS:  res = *static_cast<int16_t*>(ptr);  break;
       case mxUINT16_CLASS: res = *static_cast<uint16_t*>(ptr); break;
-- 
2.43.0


From 335a9fa3e0b679591f0b61535a4d401da01dcff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 55/78] fix: mex_flat( 'new' ) without further arguments
 creates an empty flat ground

---
 toolbox/src_mex/mex_flat.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/toolbox/src_mex/mex_flat.cc b/toolbox/src_mex/mex_flat.cc
index 81344ee..0e03c95 100644
--- a/toolbox/src_mex/mex_flat.cc
+++ b/toolbox/src_mex/mex_flat.cc
@@ -125,7 +125,7 @@ static void
 do_new(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
 {
 #define CMD "mex_flat( 'new', [, args] ): "
-  UTILS_MEX_ASSERT(nrhs == 1 || nrhs == 4 || nrhs == 8, CMD "expected 1 or 4 inputs, nrhs = " << nrhs << "\n");
+  UTILS_MEX_ASSERT(nrhs == 1 || nrhs == 4, CMD "expected 1 or 4 inputs, nrhs = " << nrhs << "\n");
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   UTILS_MEX_ASSERT(
@@ -159,7 +159,8 @@ do_new(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
     nz = matrix2_ptr[2];
   }
 
-  enve::ground::flat *self = new enve::ground::flat(mu, ox, oy, oz, nx, ny, nz);
+  enve::ground::flat *self = nrhs == 4 ? new enve::ground::flat(mu, ox, oy, oz, nx, ny, nz)
+                                       : new enve::ground::flat();
 
   DATA_NEW(arg_out_0, self);
 #undef CMD
-- 
2.43.0


From 83e19f2a02ea57346fcb7e0dcfd4080655e785c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 56/78] fix: mex_flat( 'setOrigin' ) checks its number of
 arguments

---
 toolbox/src_mex/mex_flat.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toolbox/src_mex/mex_flat.cc b/toolbox/src_mex/mex_flat.cc
index 0e03c95..9909a61 100644
--- a/toolbox/src_mex/mex_flat.cc
+++ b/toolbox/src_mex/mex_flat.cc
@@ -200,6 +200,9 @@ static void
 do_setOrigin(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
 {
 #define CMD "mex_flat( 'setOrigin', OBJ, OTHER_OBJ ): "
+  UTILS_MEX_ASSERT(nrhs == 3, CMD "expected 3 inputs, nrhs = " << nrhs << "\n");
+  UTILS_MEX_ASSERT(nlhs == 0, CMD "expected 0 output, nlhs = " << nlhs << "\n");
+
   enve::ground::flat *self = DATA_GET(arg_in_1);
   real_type const    *matrix_ptr;
   mwSize              rows, cols;
-- 
2.43.0


From d34e6459ae40922bbfd43222a3457006d4a29272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 57/78] fix: mex_flat( 'setPlane' ) takes a plane, as returned
 by 'getPlane'

---
 toolbox/src_mex/mex_flat.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src_mex/mex_flat.cc b/toolbox/src_mex/mex_flat.cc
index 9909a61..f5e9c77 100644
--- a/toolbox/src_mex/mex_flat.cc
+++ b/toolbox/src_mex/mex_flat.cc
@@ -273,7 +273,7 @@ do_setPlane(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   UTILS_MEX_ASSERT(nlhs == 0, CMD "expected 0 output, nlhs = " << nlhs << "\n");
 
   enve::ground::flat *self  = DATA_GET(arg_in_1);
-  acme::plane        *other = DATA_GET(arg_in_2);
+  acme::plane        *other = utils::mex_convert_mx_to_ptr<acme::plane>(arg_in_2);
   self->layingPlane()       = *other;
 #undef CMD
 }
-- 
2.43.0


From af4ed184405656ee57abef43572609190ed328de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 58/78] fix: mex_shell( 'rotation' ) returns the rotation
 matrix, not its transpose

---
 toolbox/src_mex/mex_shell.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/toolbox/src_mex/mex_shell.cc b/toolbox/src_mex/mex_shell.cc
index 2d01a8d..717337d 100644
--- a/toolbox/src_mex/mex_shell.cc
+++ b/toolbox/src_mex/mex_shell.cc
@@ -462,13 +462,13 @@ do_rotation(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type   *output = utils::mex_create_matrix_value(arg_out_0, 3, 3);
   acme::mat3   outmat(self->rotation());
   output[0] = outmat(0,0);
-  output[1] = outmat(0,1);
-  output[2] = outmat(0,2);
-  output[3] = outmat(1,0);
+  output[1] = outmat(1,0);
+  output[2] = outmat(2,0);
+  output[3] = outmat(0,1);
   output[4] = outmat(1,1);
-  output[5] = outmat(1,2);
-  output[6] = outmat(2,0);
-  output[7] = outmat(2,1);
+  output[5] = outmat(2,1);
+  output[6] = outmat(0,2);
+  output[7] = outmat(1,2);
   output[8] = outmat(2,2);
 #undef CMD
 }
-- 
2.43.0


From 26763b1763fe0e303d1d50ab807f7cb260449d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 59/78] fix: mex_shell( 'checkTransformation' ) takes the
 matrix it checks

---
 toolbox/src_mex/mex_shell.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toolbox/src_mex/mex_shell.cc b/toolbox/src_mex/mex_shell.cc
index 717337d..873ea6a 100644
--- a/toolbox/src_mex/mex_shell.cc
+++ b/toolbox/src_mex/mex_shell.cc
@@ -80,7 +80,7 @@
   "%   OUT = mex_shell( 'rotation', OBJ );                               %\n" \
   "%         mex_shell( 'transform', OBJ, MATRIX );                      %\n" \
   "%   OUT = mex_shell( 'transformation', OBJ );                         %\n" \
-  "%   OUT = mex_shell( 'checkTransformation', OBJ );                    %\n" \
+  "%   OUT = mex_shell( 'checkTransformation', OBJ, MATRIX );            %\n" \
   "%   OUT = mex_shell( 'x', OBJ );                                      %\n" \
   "%   OUT = mex_shell( 'y', OBJ );                                      %\n" \
   "%   OUT = mex_shell( 'z', OBJ );                                      %\n" \
@@ -532,8 +532,8 @@ do_transformation(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
 static void
 do_checkTransformation(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
 {
-#define CMD "mex_shell( 'checkTransformation', OBJ ): "
-  UTILS_MEX_ASSERT(nrhs == 2, CMD "expected 2 inputs, nrhs = " << nrhs << "\n");
+#define CMD "mex_shell( 'checkTransformation', OBJ, MATRIX ): "
+  UTILS_MEX_ASSERT(nrhs == 3, CMD "expected 3 inputs, nrhs = " << nrhs << "\n");
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   enve::shell *self   = DATA_GET(arg_in_1);
-- 
2.43.0


From 017ac5d1a6ac34a109ac801c0ead83d6f57e2f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 60/78] fix: MEX functions refuse rib and triangle indices out
 of range

---
 toolbox/src_mex/mex_mesh.cc  | 19 ++++++++++++++++--
 toolbox/src_mex/mex_shell.cc | 39 +++++++++++++++++++++++++-----------
 2 files changed, 44 insertions(+), 14 deletions(-)

diff --git a/toolbox/src_mex/mex_mesh.cc b/toolbox/src_mex/mex_mesh.cc
index 79e4cfb..ffbfec3 100644
--- a/toolbox/src_mex/mex_mesh.cc
+++ b/toolbox/src_mex/mex_mesh.cc
@@ -113,6 +113,21 @@ DATA_DELETE(
 
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
+static int
+TRIANGLE_INDEX_GET(
+    enve::ground::mesh const *self,
+    mxArray            const *mx_index,
+    char               const  msg[])
+{
+  int64_t index = utils::mex_get_int64(mx_index, msg);
+  UTILS_MEX_ASSERT(
+      index >= 1 && index <= static_cast<int64_t>(self->size()),
+      msg << ", triangle index " << index << " out of bounds [1," << self->size() << "]\n");
+  return static_cast<int>(index);
+}
+
+// - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
+
 static void
 do_new(int nlhs, mxArray *plhs[],
        int nrhs, mxArray const *prhs[])
@@ -212,7 +227,7 @@ do_getTriangleground(int nlhs, mxArray *plhs[],
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   enve::ground::mesh *self = DATA_GET(arg_in_1);
-  int i = utils::mex_get_int64(arg_in_2, CMD "error in reading input value");
+  int i = TRIANGLE_INDEX_GET(self, arg_in_2, CMD "error in reading input value");
   enve::triangleground *out = new enve::triangleground();
   out->copy(*self->ptrTriangleground(i - 1));
   arg_out_0 = utils::mex_convert_ptr_to_mx<enve::triangleground>(out);
@@ -230,7 +245,7 @@ do_getTrianglegroundVertices(int nlhs, mxArray *plhs[],
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   enve::ground::mesh *self = DATA_GET(arg_in_1);
-  int i = utils::mex_get_int64(arg_in_2, CMD "error in reading input value");
+  int i = TRIANGLE_INDEX_GET(self, arg_in_2, CMD "error in reading input value");
   enve::triangleground *tmp = new enve::triangleground();
   tmp->copy(*self->ptrTriangleground(i - 1));
   real_type *output = utils::mex_create_matrix_value(arg_out_0, 3, 3);
diff --git a/toolbox/src_mex/mex_shell.cc b/toolbox/src_mex/mex_shell.cc
index 873ea6a..3f35117 100644
--- a/toolbox/src_mex/mex_shell.cc
+++ b/toolbox/src_mex/mex_shell.cc
@@ -158,6 +158,21 @@ DATA_DELETE(
 
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
+static int
+RIB_INDEX_GET(
+  enve::shell   const *self,
+  mxArray       const *mx_index,
+  char          const  msg[])
+{
+  int64_t index = utils::mex_get_int64(mx_index, msg);
+  UTILS_MEX_ASSERT(
+    index >= 1 && index <= static_cast<int64_t>(self->size()),
+    msg << ", rib index " << index << " out of bounds [1," << self->size() << "]\n");
+  return static_cast<int>(index);
+}
+
+// - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
+
 static void
 do_new(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
 {
@@ -339,7 +354,7 @@ do_ribRadius(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   enve::shell *self = DATA_GET(arg_in_1);
-  int          i    = utils::mex_get_int64(arg_in_2, CMD "error in reading input value");
+  int          i    = RIB_INDEX_GET(self, arg_in_2, CMD "error in reading input value");
   utils::mex_set_scalar_value(arg_out_0, self->ribRadius(i - 1));
 #undef CMD
 }
@@ -354,7 +369,7 @@ do_ribCenter(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   enve::shell *self = DATA_GET(arg_in_1);
-  int          i    = utils::mex_get_int64(arg_in_2, CMD "error in reading input value");
+  int          i    = RIB_INDEX_GET(self, arg_in_2, CMD "error in reading input value");
   acme::point *out  = new acme::point(self->ribCenter(i - 1));
   arg_out_0         = utils::mex_convert_ptr_to_mx<acme::point>(out);
 #undef CMD
@@ -370,7 +385,7 @@ do_ribWidth(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   enve::shell *self = DATA_GET(arg_in_1);
-  int          i    = utils::mex_get_int64(arg_in_2, CMD "error in reading input value");
+  int          i    = RIB_INDEX_GET(self, arg_in_2, CMD "error in reading input value");
   utils::mex_set_scalar_value(arg_out_0, self->ribWidth(i - 1));
 #undef CMD
 }
@@ -385,7 +400,7 @@ do_ribAngle(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   enve::shell *self = DATA_GET(arg_in_1);
-  int          i    = utils::mex_get_int64(arg_in_2, CMD "error in reading input value");
+  int          i    = RIB_INDEX_GET(self, arg_in_2, CMD "error in reading input value");
   utils::mex_set_scalar_value(arg_out_0, self->ribAngle(i - 1));
 #undef CMD
 }
@@ -702,7 +717,7 @@ do_contactPointRib(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   enve::shell *self = DATA_GET(arg_in_1);
-  int          i    = utils::mex_get_int64(arg_in_2, CMD "error in reading input value");
+  int          i    = RIB_INDEX_GET(self, arg_in_2, CMD "error in reading input value");
   acme::point *out  = new acme::point();
   self->contactPoint(i - 1, *out);
   arg_out_0 = utils::mex_convert_ptr_to_mx<acme::point>(out);
@@ -738,7 +753,7 @@ do_contactNormalRib(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   enve::shell *self   = DATA_GET(arg_in_1);
-  int          i      = utils::mex_get_int64(arg_in_2, CMD "error in reading input value");
+  int          i      = RIB_INDEX_GET(self, arg_in_2, CMD "error in reading input value");
   real_type   *output = utils::mex_create_matrix_value(arg_out_0, 3, 1);
   vec3         outvec;
   self->contactNormal(i - 1, outvec);
@@ -774,7 +789,7 @@ do_contactDepthRib(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   enve::shell *self  = DATA_GET(arg_in_1);
-  int          i     = utils::mex_get_int64(arg_in_2, CMD "error in reading input value");
+  int          i     = RIB_INDEX_GET(self, arg_in_2, CMD "error in reading input value");
   real_type    depth;
   self->contactDepth(i - 1, depth);
   utils::mex_set_scalar_value(arg_out_0, depth);
@@ -807,7 +822,7 @@ do_contactFrictionRib(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[]
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   enve::shell *self = DATA_GET(arg_in_1);
-  int          i    = utils::mex_get_int64(arg_in_2, CMD "error in reading input value");
+  int          i    = RIB_INDEX_GET(self, arg_in_2, CMD "error in reading input value");
   real_type    friction;
   self->contactFriction(i - 1, friction);
   utils::mex_set_scalar_value(arg_out_0, friction);
@@ -840,7 +855,7 @@ do_contactAreaRib(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   enve::shell *self = DATA_GET(arg_in_1);
-  int          i    = utils::mex_get_int64(arg_in_2, CMD "error in reading input value");
+  int          i    = RIB_INDEX_GET(self, arg_in_2, CMD "error in reading input value");
   real_type    area;
   self->contactArea(i - 1, area);
   utils::mex_set_scalar_value(arg_out_0, area);
@@ -873,7 +888,7 @@ do_contactVolumeRib(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   enve::shell *self = DATA_GET(arg_in_1);
-  int          i    = utils::mex_get_int64(arg_in_2, CMD "error in reading input value");
+  int          i    = RIB_INDEX_GET(self, arg_in_2, CMD "error in reading input value");
   real_type    volume;
   self->contactVolume(i - 1, volume);
   utils::mex_set_scalar_value(arg_out_0, volume);
@@ -922,7 +937,7 @@ do_contactPointAffineRib(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prh
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   enve::shell *self   = DATA_GET(arg_in_1);
-  int          i      = utils::mex_get_int64(arg_in_2, CMD "error in reading input value");
+  int          i      = RIB_INDEX_GET(self, arg_in_2, CMD "error in reading input value");
   real_type   *output = utils::mex_create_matrix_value(arg_out_0, 4, 4);
   acme::affine outmat;
   self->contactPointAffine(i - 1, outmat);
@@ -974,7 +989,7 @@ do_relativeAnglesRib(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   enve::shell *self   = DATA_GET(arg_in_1);
-  int          i      = utils::mex_get_int64(arg_in_2, CMD "error in reading input value");
+  int          i      = RIB_INDEX_GET(self, arg_in_2, CMD "error in reading input value");
   real_type   *output = utils::mex_create_matrix_value(arg_out_0, 3, 1);
   acme::vec3   outvec;
   self->relativeAngles(i - 1, outvec);
-- 
2.43.0


From d9eba76d511bb13d613f38ffeca18e3df78ff286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 61/78] fix: mex_mesh( 'getTrianglegroundVertices' ) no longer
 leaks a triangle per call

---
 toolbox/src_mex/mex_mesh.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/toolbox/src_mex/mex_mesh.cc b/toolbox/src_mex/mex_mesh.cc
index ffbfec3..d81a927 100644
--- a/toolbox/src_mex/mex_mesh.cc
+++ b/toolbox/src_mex/mex_mesh.cc
@@ -246,8 +246,7 @@ do_getTrianglegroundVertices(int nlhs, mxArray *plhs[],
 
   enve::ground::mesh *self = DATA_GET(arg_in_1);
   int i = TRIANGLE_INDEX_GET(self, arg_in_2, CMD "error in reading input value");
-  enve::triangleground *tmp = new enve::triangleground();
-  tmp->copy(*self->ptrTriangleground(i - 1));
+  enve::triangleground::ptr tmp = self->ptrTriangleground(i - 1);
   real_type *output = utils::mex_create_matrix_value(arg_out_0, 3, 3);
   output[0] = tmp->triangle::vertex(0).x();
   output[1] = tmp->triangle::vertex(0).y();
-- 
2.43.0


From be3d85bc2523c319a22fa86d006d42a8358a34e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:09 +0000
Subject: [PATCH 62/78] fix: mex_mesh( 'load' ) has no output, as documented

---
 toolbox/src_mex/mex_mesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src_mex/mex_mesh.cc b/toolbox/src_mex/mex_mesh.cc
index d81a927..53122b9 100644
--- a/toolbox/src_mex/mex_mesh.cc
+++ b/toolbox/src_mex/mex_mesh.cc
@@ -299,7 +299,7 @@ do_load(int nlhs, mxArray *plhs[],
 {
 #define CMD "mex_mesh( 'load', OBJ, PATH, [, FRICTION] ): "
   UTILS_MEX_ASSERT(nrhs == 3 || nrhs == 4, CMD "expected 3 or 4 inputs, nrhs = " << nrhs << "\n");
-  UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
+  UTILS_MEX_ASSERT(nlhs == 0, CMD "expected 0 output, nlhs = " << nlhs << "\n");
 
   enve::ground::mesh *self = DATA_GET(arg_in_1);
   string path = mxArrayToString(arg_in_2);
-- 
2.43.0


From 276da23bf205c2950c9b08083c760f0a6816edf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:09 +0000
Subject: [PATCH 63/78] fix: mex_mesh raises an error when it cannot load,
 instead of returning an empty mesh

---
 toolbox/src_mex/mex_mesh.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/toolbox/src_mex/mex_mesh.cc b/toolbox/src_mex/mex_mesh.cc
index 53122b9..12c8830 100644
--- a/toolbox/src_mex/mex_mesh.cc
+++ b/toolbox/src_mex/mex_mesh.cc
@@ -32,6 +32,7 @@
 #include "mex_utils.hh"
 #include "acme.hh"
 #include "enve.hh"
+#include <memory>
 
 #define ASSERT(COND, MSG)               \
   if (!(COND))                          \
@@ -140,13 +141,13 @@ do_new(int nlhs, mxArray *plhs[],
       mxIsChar(arg_in_0),
       CMD "first argument must be a string, found " << mxGetClassName(arg_in_0) << "\n");
 
-  enve::ground::mesh *self = new enve::ground::mesh();
+  std::unique_ptr<enve::ground::mesh> self(new enve::ground::mesh());
 
   if (nrhs == 2)
   {
     string path = mxArrayToString(arg_in_1);
     if (path.substr(path.size() - 4, 4) != ".rdf")
-      std::cout << "Cannot load: not a *.rdf or *.obj file!" << std::endl;
+      mexErrMsgTxt(CMD "cannot load, not a *.rdf or *.obj file!\n");
     else
       self->load(path);
   }
@@ -173,7 +174,7 @@ do_new(int nlhs, mxArray *plhs[],
     }
     else
     {
-      std::cout << "Wrong input arguments!" << std::endl;
+      mexErrMsgTxt(CMD "wrong input arguments!\n");
     }
   }
   else if (nrhs == 4)
@@ -194,11 +195,11 @@ do_new(int nlhs, mxArray *plhs[],
     }
     else
     {
-      std::cout << "Wrong input arguments!" << std::endl;
+      mexErrMsgTxt(CMD "wrong input arguments!\n");
     }
   }
 
-  DATA_NEW(arg_out_0, self);
+  DATA_NEW(arg_out_0, self.release());
 #undef CMD
 }
 
@@ -307,7 +308,7 @@ do_load(int nlhs, mxArray *plhs[],
   if (nrhs == 3)
   {
     if (path.substr(path.size() - 4, 4) != ".rdf")
-      std::cout << "Cannot load: not a *.rdf or *.obj file!" << std::endl;
+      mexErrMsgTxt(CMD "cannot load, not a *.rdf or *.obj file!\n");
     else
       self->load(path);
   }
@@ -315,7 +316,7 @@ do_load(int nlhs, mxArray *plhs[],
   {
     if (path.substr(path.size() - 4, 4) != ".obj")
     {
-      std::cout << "Cannot load: not a *.rdf or *.obj file!" << std::endl;
+      mexErrMsgTxt(CMD "cannot load, not a *.rdf or *.obj file!\n");
     }
     else
     {
-- 
2.43.0


From e4e96387bdab0115cbc6ca63b0bf76b11730a0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:49 +0000
Subject: [PATCH 64/78] fix: mex_triangleground offers the setters it documents

---
 toolbox/src_mex/mex_triangleground.cc | 105 ++++++++++++++++++++++++++
 1 file changed, 105 insertions(+)

diff --git a/toolbox/src_mex/mex_triangleground.cc b/toolbox/src_mex/mex_triangleground.cc
index b5abb94..7d4466a 100644
--- a/toolbox/src_mex/mex_triangleground.cc
+++ b/toolbox/src_mex/mex_triangleground.cc
@@ -288,6 +288,106 @@ do_getVertex3(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
 
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
+static void
+VERTICES_GET(
+  enve::triangleground const *self,
+  acme::point                 vertices[3])
+{
+  acme::triangle const &triangle = *self;
+  for (int i = 0; i < 3; ++i)
+    {vertices[i] = triangle.vertex(i);}
+}
+
+// - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
+
+static void
+do_setID(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
+{
+#define CMD "mex_triangleground( 'setID', OBJ, ID ): "
+  UTILS_MEX_ASSERT(nrhs == 3, CMD "expected 3 inputs, nrhs = " << nrhs << "\n");
+  UTILS_MEX_ASSERT(nlhs == 0, CMD "expected 0 output, nlhs = " << nlhs << "\n");
+
+  enve::triangleground *self  = DATA_GET(arg_in_1);
+  int                   id    = utils::mex_get_int64(arg_in_2, CMD "error in reading input value");
+  acme::point           vertices[3];
+  VERTICES_GET(self, vertices);
+  self->copy(enve::triangleground(id, self->friction(), vertices));
+#undef CMD
+}
+
+// - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
+
+static void
+do_setFriction(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
+{
+#define CMD "mex_triangleground( 'setFriction', OBJ, MU ): "
+  UTILS_MEX_ASSERT(nrhs == 3, CMD "expected 3 inputs, nrhs = " << nrhs << "\n");
+  UTILS_MEX_ASSERT(nlhs == 0, CMD "expected 0 output, nlhs = " << nlhs << "\n");
+
+  enve::triangleground *self  = DATA_GET(arg_in_1);
+  real_type             mu    = utils::mex_get_scalar_value(arg_in_2, CMD "error in reading input value");
+  acme::point           vertices[3];
+  VERTICES_GET(self, vertices);
+  self->copy(enve::triangleground(self->id(), mu, vertices));
+#undef CMD
+}
+
+// - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
+
+static void
+do_setVertex1(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
+{
+#define CMD "mex_triangleground( 'setVertex1', OBJ, OTHER_OBJ ): "
+  UTILS_MEX_ASSERT(nrhs == 3, CMD "expected 3 inputs, nrhs = " << nrhs << "\n");
+  UTILS_MEX_ASSERT(nlhs == 0, CMD "expected 0 output, nlhs = " << nlhs << "\n");
+
+  enve::triangleground *self  = DATA_GET(arg_in_1);
+  acme::point          *other = utils::mex_convert_mx_to_ptr<acme::point>(arg_in_2);
+  acme::point           vertices[3];
+  VERTICES_GET(self, vertices);
+  vertices[0] = *other;
+  self->copy(enve::triangleground(self->id(), self->friction(), vertices));
+#undef CMD
+}
+
+// - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
+
+static void
+do_setVertex2(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
+{
+#define CMD "mex_triangleground( 'setVertex2', OBJ, OTHER_OBJ ): "
+  UTILS_MEX_ASSERT(nrhs == 3, CMD "expected 3 inputs, nrhs = " << nrhs << "\n");
+  UTILS_MEX_ASSERT(nlhs == 0, CMD "expected 0 output, nlhs = " << nlhs << "\n");
+
+  enve::triangleground *self  = DATA_GET(arg_in_1);
+  acme::point          *other = utils::mex_convert_mx_to_ptr<acme::point>(arg_in_2);
+  acme::point           vertices[3];
+  VERTICES_GET(self, vertices);
+  vertices[1] = *other;
+  self->copy(enve::triangleground(self->id(), self->friction(), vertices));
+#undef CMD
+}
+
+// - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
+
+static void
+do_setVertex3(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
+{
+#define CMD "mex_triangleground( 'setVertex3', OBJ, OTHER_OBJ ): "
+  UTILS_MEX_ASSERT(nrhs == 3, CMD "expected 3 inputs, nrhs = " << nrhs << "\n");
+  UTILS_MEX_ASSERT(nlhs == 0, CMD "expected 0 output, nlhs = " << nlhs << "\n");
+
+  enve::triangleground *self  = DATA_GET(arg_in_1);
+  acme::point          *other = utils::mex_convert_mx_to_ptr<acme::point>(arg_in_2);
+  acme::point           vertices[3];
+  VERTICES_GET(self, vertices);
+  vertices[2] = *other;
+  self->copy(enve::triangleground(self->id(), self->friction(), vertices));
+#undef CMD
+}
+
+// - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
+
 static void
 do_copy(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
 {
@@ -328,10 +428,15 @@ static map<string, DO_CMD> cmd_to_fun = {
   {"new",         do_new},
   {"delete",      do_delete},
   {"getID",       do_getID},
+  {"setID",       do_setID},
   {"getFriction", do_getFriction},
+  {"setFriction", do_setFriction},
   {"getVertex1",  do_getVertex1},
   {"getVertex2",  do_getVertex2},
   {"getVertex3",  do_getVertex3},
+  {"setVertex1",  do_setVertex1},
+  {"setVertex2",  do_setVertex2},
+  {"setVertex3",  do_setVertex3},
   {"copy",        do_copy},
   {"normal",      do_normal}};
 
-- 
2.43.0


From f579b9f4da25521e7c5126d94d684ccf9914f965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:49 +0000
Subject: [PATCH 65/78] fix: mex_triangleground( 'new' ) accepts single
 coordinates, as documented

---
 toolbox/src_mex/mex_triangleground.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/toolbox/src_mex/mex_triangleground.cc b/toolbox/src_mex/mex_triangleground.cc
index 7d4466a..99ab9e8 100644
--- a/toolbox/src_mex/mex_triangleground.cc
+++ b/toolbox/src_mex/mex_triangleground.cc
@@ -142,7 +142,7 @@ do_new(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
 {
 
 #define CMD "mex_triangleground( 'new', [, args] ): "
-  UTILS_MEX_ASSERT(nrhs == 1 || nrhs == 6, CMD "expected 1 or 6 inputs, nrhs = " << nrhs << "\n");
+  UTILS_MEX_ASSERT(nrhs == 1 || nrhs == 6 || nrhs == 12, CMD "expected 1, 6 or 12 inputs, nrhs = " << nrhs << "\n");
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   UTILS_MEX_ASSERT(
@@ -188,6 +188,20 @@ do_new(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
     y3 = matrix3_ptr[1];
     z3 = matrix3_ptr[2];
   }
+  else if (nrhs == 12)
+  {
+    id = utils::mex_get_int64(arg_in_1, CMD "error in reading 1st input value");
+    mu = utils::mex_get_scalar_value(arg_in_2, CMD "error in reading 2nd input value");
+    x1 = utils::mex_get_scalar_value(arg_in_3, CMD "error in reading 3rd input value");
+    y1 = utils::mex_get_scalar_value(arg_in_4, CMD "error in reading 4th input value");
+    z1 = utils::mex_get_scalar_value(arg_in_5, CMD "error in reading 5th input value");
+    x2 = utils::mex_get_scalar_value(arg_in_6, CMD "error in reading 6th input value");
+    y2 = utils::mex_get_scalar_value(arg_in_7, CMD "error in reading 7th input value");
+    z2 = utils::mex_get_scalar_value(arg_in_8, CMD "error in reading 8th input value");
+    x3 = utils::mex_get_scalar_value(arg_in_9, CMD "error in reading 9th input value");
+    y3 = utils::mex_get_scalar_value(arg_in_10, CMD "error in reading 10th input value");
+    z3 = utils::mex_get_scalar_value(arg_in_11, CMD "error in reading 11th input value");
+  }
 
   enve::triangleground *ptr = new enve::triangleground(id, mu, acme::point(x1, y1, z1), acme::point(x2, y2, z2), acme::point(x3, y3, z3));
   DATA_NEW(arg_out_0, ptr);
-- 
2.43.0


From be78569b04e6d4e3817add1ac4b599236c45bd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:49 +0000
Subject: [PATCH 66/78] fix: enve_shell.surfaceWidthBound() calls a command
 that exists

---
 toolbox/lib/enve_shell.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/lib/enve_shell.m b/toolbox/lib/enve_shell.m
index 3845205..2982065 100644
--- a/toolbox/lib/enve_shell.m
+++ b/toolbox/lib/enve_shell.m
@@ -77,7 +77,7 @@ classdef enve_shell < handle
     %
     %> Get shell surface maximum width on reference (m)
     function out = surfaceWidthBound( this, y )
-      out = mex_shell( 'surfaceWidthBound', this.objectHandle, y );
+      out = mex_shell( 'checkWidthBound', this.objectHandle, y );
     end
     %
     % - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From dce17fa53596e4f1d761555d2dfa87741f5ea521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 67/78] fix: flat::isApprox() applies the given tolerance to
 the plane, too

---
 src/flat.cc         | 2 +-
 toolbox/src/flat.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flat.cc b/src/flat.cc
index b09581b..fec3f81 100644
--- a/src/flat.cc
+++ b/src/flat.cc
@@ -146,7 +146,7 @@ namespace enve
     )
       const
     {
-      return this->plane::isApprox(flat_bj) &&
+      return this->plane::isApprox(flat_bj, tolerance) &&
              IsApprox(this->m_friction, flat_bj.m_friction, tolerance);
     }
 
diff --git a/toolbox/src/flat.cc b/toolbox/src/flat.cc
index b09581b..fec3f81 100644
--- a/toolbox/src/flat.cc
+++ b/toolbox/src/flat.cc
@@ -146,7 +146,7 @@ namespace enve
     )
       const
     {
-      return this->plane::isApprox(flat_bj) &&
+      return this->plane::isApprox(flat_bj, tolerance) &&
              IsApprox(this->m_friction, flat_bj.m_friction, tolerance);
     }
 
-- 
2.43.0


From 224e6a0e4d91bea1e8441010a0d64822e3d1f031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 68/78] fix: triangleground::isApprox() applies the given
 tolerance to the vertices, too

---
 src/triangleground.cc         | 2 +-
 toolbox/src/triangleground.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triangleground.cc b/src/triangleground.cc
index 84cf7f3..a815491 100644
--- a/src/triangleground.cc
+++ b/src/triangleground.cc
@@ -163,7 +163,7 @@ namespace enve
   )
     const
   {
-    return this->triangle::isApprox(triangleground_obj) &&
+    return this->triangle::isApprox(triangleground_obj, tolerance) &&
            IsApprox(this->m_friction, triangleground_obj.m_friction, tolerance);
   }
 
diff --git a/toolbox/src/triangleground.cc b/toolbox/src/triangleground.cc
index 84cf7f3..a815491 100644
--- a/toolbox/src/triangleground.cc
+++ b/toolbox/src/triangleground.cc
@@ -163,7 +163,7 @@ namespace enve
   )
     const
   {
-    return this->triangle::isApprox(triangleground_obj) &&
+    return this->triangle::isApprox(triangleground_obj, tolerance) &&
            IsApprox(this->m_friction, triangleground_obj.m_friction, tolerance);
   }
 
-- 
2.43.0


From cace2372bc39e00b0c69bf3bb3ffc4f918fdbdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:59 +0000
Subject: [PATCH 69/78] fix: a refused shell::resize() leaves the shell as it
 was

---
 src/shell.cc         | 28 +++++++++++++++-------------
 toolbox/src/shell.cc | 28 +++++++++++++++-------------
 2 files changed, 30 insertions(+), 26 deletions(-)

diff --git a/src/shell.cc b/src/shell.cc
index 817e9a3..6509a67 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -77,19 +77,9 @@ namespace enve
     ENVE_ASSERT(size > size_t(0),
       CMD "negative ribs number detected.");
 
-    // Resize the contact point, friction and normal vectors
-    for (size_t i = 0; i < this->m_candidates.size(); ++i)
-      {this->m_candidates[i].clear();}
-    this->m_ribs.clear();       this->m_ribs.reserve(200);
-    this->m_out.clear();        this->m_out.reserve(200);
-    this->m_candidates.clear(); this->m_candidates.reserve(200);
-
-    this->m_out.resize(size);
-    this->m_candidates.resize(size);
-    for (size_t i = 0; i < size; ++i)
-      {this->m_candidates[i].reserve(200);}
-
     // Locate the disks
+    std::vector<rib> ribs;
+    ribs.reserve(200);
     real shellWidth = this->m_shape->surfaceWidth();
     real ribW = real(2.0) * shellWidth / size;
     real ribR, ribA;
@@ -105,9 +95,21 @@ namespace enve
         CMD "NaN rib radius detected.");
       ENVE_ASSERT(ribA == ribA,
         CMD "NaN rib angle detected.");
-      this->m_ribs.emplace_back(i, ribR, ribY, ribW, ribA);
+      ribs.emplace_back(i, ribR, ribY, ribW, ribA);
     }
 
+    // Resize the contact point, friction and normal vectors
+    for (size_t i = 0; i < this->m_candidates.size(); ++i)
+      {this->m_candidates[i].clear();}
+    this->m_ribs.swap(ribs);
+    this->m_out.clear();        this->m_out.reserve(200);
+    this->m_candidates.clear(); this->m_candidates.reserve(200);
+
+    this->m_out.resize(size);
+    this->m_candidates.resize(size);
+    for (size_t i = 0; i < size; ++i)
+      {this->m_candidates[i].reserve(200);}
+
     #undef CMD
   }
 
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 817e9a3..6509a67 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -77,19 +77,9 @@ namespace enve
     ENVE_ASSERT(size > size_t(0),
       CMD "negative ribs number detected.");
 
-    // Resize the contact point, friction and normal vectors
-    for (size_t i = 0; i < this->m_candidates.size(); ++i)
-      {this->m_candidates[i].clear();}
-    this->m_ribs.clear();       this->m_ribs.reserve(200);
-    this->m_out.clear();        this->m_out.reserve(200);
-    this->m_candidates.clear(); this->m_candidates.reserve(200);
-
-    this->m_out.resize(size);
-    this->m_candidates.resize(size);
-    for (size_t i = 0; i < size; ++i)
-      {this->m_candidates[i].reserve(200);}
-
     // Locate the disks
+    std::vector<rib> ribs;
+    ribs.reserve(200);
     real shellWidth = this->m_shape->surfaceWidth();
     real ribW = real(2.0) * shellWidth / size;
     real ribR, ribA;
@@ -105,9 +95,21 @@ namespace enve
         CMD "NaN rib radius detected.");
       ENVE_ASSERT(ribA == ribA,
         CMD "NaN rib angle detected.");
-      this->m_ribs.emplace_back(i, ribR, ribY, ribW, ribA);
+      ribs.emplace_back(i, ribR, ribY, ribW, ribA);
     }
 
+    // Resize the contact point, friction and normal vectors
+    for (size_t i = 0; i < this->m_candidates.size(); ++i)
+      {this->m_candidates[i].clear();}
+    this->m_ribs.swap(ribs);
+    this->m_out.clear();        this->m_out.reserve(200);
+    this->m_candidates.clear(); this->m_candidates.reserve(200);
+
+    this->m_out.resize(size);
+    this->m_candidates.resize(size);
+    for (size_t i = 0; i < size; ++i)
+      {this->m_candidates[i].reserve(200);}
+
     #undef CMD
   }
 
-- 
2.43.0


From 71c46752c62ffc59e36eb99cb321364f3e56d493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:37 +0000
Subject: [PATCH 70/78] fix: the shell report labelled the relative angles in
 the wrong order

---
 src/shell.cc         | 4 ++--
 toolbox/src/shell.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/shell.cc b/src/shell.cc
index 6509a67..a809da2 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -997,10 +997,10 @@ namespace enve
        << "Local contact point reference frame" << std::endl
        << pose.matrix() << std::endl
        << "Relative pose angles" << std::endl
-       << "[Γ ß α]' = " << relative_angles.transpose() / PI << "pi rad" << std::endl
+       << "[α Γ ß]' = " << relative_angles.transpose() / PI << "pi rad" << std::endl
        << "Ribs relative pose angles" << std::endl;
     for (size_t i = 0; i < relative_angles_vec.size(); ++i)
-      {os << "Rib " << i << " - [Γ ß α]' = " << relative_angles_vec[i].transpose() / PI << "pi rad" << std::endl;}
+      {os << "Rib " << i << " - [α Γ ß]' = " << relative_angles_vec[i].transpose() / PI << "pi rad" << std::endl;}
     os << std::endl;
 
     os << " ------------     END     ------------" << std::endl
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 6509a67..a809da2 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -997,10 +997,10 @@ namespace enve
        << "Local contact point reference frame" << std::endl
        << pose.matrix() << std::endl
        << "Relative pose angles" << std::endl
-       << "[Γ ß α]' = " << relative_angles.transpose() / PI << "pi rad" << std::endl
+       << "[α Γ ß]' = " << relative_angles.transpose() / PI << "pi rad" << std::endl
        << "Ribs relative pose angles" << std::endl;
     for (size_t i = 0; i < relative_angles_vec.size(); ++i)
-      {os << "Rib " << i << " - [Γ ß α]' = " << relative_angles_vec[i].transpose() / PI << "pi rad" << std::endl;}
+      {os << "Rib " << i << " - [α Γ ß]' = " << relative_angles_vec[i].transpose() / PI << "pi rad" << std::endl;}
     os << std::endl;
 
     os << " ------------     END     ------------" << std::endl
-- 
2.43.0


From 6bac93e021b5d742042d85cf4125bd255feef4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:58 +0000
Subject: [PATCH 71/78] fix: enve_flat.copy() accepts a flat, not a mesh

---
 toolbox/lib/enve_flat.m | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/lib/enve_flat.m b/toolbox/lib/enve_flat.m
index 066215c..f351a86 100644
--- a/toolbox/lib/enve_flat.m
+++ b/toolbox/lib/enve_flat.m
@@ -128,10 +128,10 @@ classdef enve_flat < handle
     %
     %> Copy mesh object from another mesh
     function copy( this, other_obj )
-      if (other_obj.type() == "mesh")
+      if (other_obj.type() == "flat")
         mex_flat( 'copy', this.objectHandle, other_obj.objectHandle );
       else
-        error('mex_flat::copy(): other_obj must be an ENVE mesh object type.');
+        error('mex_flat::copy(): other_obj must be an ENVE flat object type.');
       end
     end
     %
-- 
2.43.0


From ef7999b082ece836aa055e948ef4e55cfc878fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:55 +0000
Subject: [PATCH 72/78] fix: tabs separate the fields of mesh file lines, too

---
 src/mesh.cc         | 2 +-
 toolbox/src/mesh.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh.cc b/src/mesh.cc
index ec4d37b..06c939e 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -562,7 +562,7 @@ namespace enve
       for (size_t i = 0; i < in.size(); ++i)
       {
         test = in.substr(i, token.size());
-        if (test == token)
+        if (test == token || in[i] == '\t')
         {
           if (!tmp.empty())
           {
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index ec4d37b..06c939e 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -562,7 +562,7 @@ namespace enve
       for (size_t i = 0; i < in.size(); ++i)
       {
         test = in.substr(i, token.size());
-        if (test == token)
+        if (test == token || in[i] == '\t')
         {
           if (!tmp.empty())
           {
-- 
2.43.0


From 32ab0cdab1ceda66f0be341f5ac1b8f3919b626e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:35 +0000
Subject: [PATCH 73/78] fix: generic intersection ignored its tolerance when
 testing collinearity and coplanarity

---
 toolbox/src/intersection.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 66585b4..b055438 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -189,7 +189,7 @@ namespace acme
         break;
       }
     }
-    else if (IsCollinear(entity0_in, entity1_in))
+    else if (IsCollinear(entity0_in, entity1_in, tolerance))
     {
       switch (slide)
       {
@@ -300,7 +300,7 @@ namespace acme
         break;
       }
     }
-    else if (IsCoplanar(entity0_in, entity1_in))
+    else if (IsCoplanar(entity0_in, entity1_in, tolerance))
     {
       switch (slide)
       {
-- 
2.43.0


From f5050a11c86ae9877c37e81dea07e0ec4b7aeda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:32 +0000
Subject: [PATCH 74/78] fix: points at the origin of a line or ray were outside
 it unless exactly equal

---
 toolbox/src/line.cc | 2 ++
 toolbox/src/ray.cc  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/toolbox/src/line.cc b/toolbox/src/line.cc
index 94f748d..e728b10 100644
--- a/toolbox/src/line.cc
+++ b/toolbox/src/line.cc
@@ -188,6 +188,8 @@ namespace acme
   )
     const
   {
+    if ((point_in - this->m_origin).norm() <= tolerance)
+      {return true;}
     return IsApprox(((point_in - this->m_origin).normalized().cross(this->m_direction)).norm(), real(0.0), tolerance);
   }
 
diff --git a/toolbox/src/ray.cc b/toolbox/src/ray.cc
index c25a634..cc9de87 100644
--- a/toolbox/src/ray.cc
+++ b/toolbox/src/ray.cc
@@ -188,6 +188,8 @@ namespace acme
   )
     const
   {
+    if ((point_in - this->m_origin).norm() <= tolerance)
+      {return true;}
     vec3 p = (point_in - this->m_origin).normalized();
     return IsApprox(p.cross(this->m_direction).norm(), real(0.0), tolerance) and p.dot(this->m_direction) >= 0;
   }
-- 
2.43.0


From 90c1b42cedcaab26facec214824ead0e6bb8084e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:46 +0000
Subject: [PATCH 75/78] fix: collinear segments touching within tolerance at
 one end raised an exception

---
 toolbox/src/intersection.cc | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index b055438..8c75f9b 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -1331,12 +1331,33 @@ namespace acme
       case 0: // 0000
         return false;
 
-      //                  Exception not handled
+      //        Extrema touching within tolerance of one segment only
       // | s0_p0_in_s1 | s0_p1_in_s1 | s1_p0_in_s0 | s1_p1_in_s0 |
       // |      0      |      0      |      0      |      1      |
       // |      0      |      0      |      1      |      0      |
       // |      0      |      1      |      0      |      0      |
       // |      1      |      0      |      0      |      0      |
+      case 1: // 0001
+        segment_out.vertex(0) = s1_p1;
+        segment_out.vertex(1) = s1_p1;
+        return true;
+
+      case 10: // 0010
+        segment_out.vertex(0) = s1_p0;
+        segment_out.vertex(1) = s1_p0;
+        return true;
+
+      case 100: // 0100
+        segment_out.vertex(0) = s0_p1;
+        segment_out.vertex(1) = s0_p1;
+        return true;
+
+      case 1000: // 1000
+        segment_out.vertex(0) = s0_p0;
+        segment_out.vertex(1) = s0_p0;
+        return true;
+
+      //                  Exception not handled
       default:
         ACME_ERROR(CMD "exception not handled.")
       }
-- 
2.43.0


From b7267ccd800adbda8d9dc4e3817b5f63ca53bd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:09 +0000
Subject: [PATCH 76/78] fix: refused generic intersections leaked the entity
 made for their result

---
 toolbox/src/intersection.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 8c75f9b..4375b61 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -59,6 +59,15 @@ namespace acme
     integer slide      = entity0_in->level() * 100 + entity1_in->level();
     bool    collide    = false;
     entity *entity_out = nullptr;
+
+    // Releases the output entity when an unsupported intersection throws
+    struct output_guard
+    {
+      entity *&entity_ptr;
+      bool     release;
+      ~output_guard(void) {if (this->release) {delete this->entity_ptr;}}
+    } guard{entity_out, true};
+
     if (entity0_in->isPoint() || entity1_in->isPoint())
     {
       switch (slide)
@@ -1115,6 +1124,7 @@ namespace acme
         break;
       }
     }
+    guard.release = false;
     if (!collide)
     {
       delete entity_out;
-- 
2.43.0


From 7ec8d75f320bdec9b69e590b57ca610f33374864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:29 +0000
Subject: [PATCH 77/78] fix: line and disk intersection lost contacts far from
 the line origin

The chord came from the difference of two numbers of the order of the squared
distance between the line origin and the disk.  The line of two planes has its
origin near the world origin, so a wheel at map coordinates (millions of meters)
lost shallow contacts.  Measure from the line point nearest to the center.
---
 toolbox/src/intersection.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 4375b61..3bc6167 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -2054,9 +2054,12 @@ namespace acme
     point disk_center(disk_in.center());
     point line_origin(line_in.origin());
     vec3  line_direction(line_in.direction());
-    vec3  diff(line_origin - disk_center);
+    real  a2 = line_direction.dot(line_direction);
+
+    // Measure from the line point nearest to the center, the origin may lie far away
+    line_origin += ((disk_center - line_origin).dot(line_direction) / a2) * line_direction;
+    vec3 diff(line_origin - disk_center);
 
-    real a2 = line_direction.dot(line_direction);
     real a1 = diff.dot(line_direction);
     real a0 = diff.dot(diff) - disk_radius * disk_radius;
 
-- 
2.43.0


From 21d2bf449798caff770b99a3af99e5705acc4b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:52 +0000
Subject: [PATCH 78/78] fix: refused S-function initialisation leaked the
 ground it had built

---
 sfun/src_sfun/enve_sfun_interface.cc | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/sfun/src_sfun/enve_sfun_interface.cc b/sfun/src_sfun/enve_sfun_interface.cc
index d10ad38..785174d 100755
--- a/sfun/src_sfun/enve_sfun_interface.cc
+++ b/sfun/src_sfun/enve_sfun_interface.cc
@@ -37,6 +37,7 @@
 
 #include "enve_sfun_interface.h"
 #include "enve.hh"
+#include <memory>
 
 #ifdef __cplusplus
 extern "C"
@@ -73,34 +74,34 @@ extern "C"
 
     // Build mesh
     std::string extension = mesh_path.substr(mesh_path.size() - 4, 4);
-    enve::ground::mesh *mesh = nullptr;
+    std::unique_ptr<enve::ground::mesh> mesh;
     if (extension == ".rdf")
-      {mesh = new enve::ground::mesh(mesh_path, pose);}
+      {mesh.reset(new enve::ground::mesh(mesh_path, pose));}
     else if (extension == ".obj")
-      {mesh = new enve::ground::mesh(mesh_path, 1.0, pose);}
+      {mesh.reset(new enve::ground::mesh(mesh_path, 1.0, pose));}
     else
       {ENVE_ERROR(CMD "not a *.rdf or *.obj file.");}
 
     // Build flat
-    enve::ground::flat *flat = new enve::ground::flat(
+    std::unique_ptr<enve::ground::flat> flat(new enve::ground::flat(
       *FlatFrictionPar, acme::point(0.0, 0.0, *FlatHeightPar), acme::vec3(0.0, 0.0, 1.0)
-    );
+    ));
 
     // Build shell
-    enve::shell *shell = new enve::shell(
+    std::unique_ptr<enve::shell> shell(new enve::shell(
       *SizePar,
       *Rx,
       *Mx,
       *Ry,
       *My,
       *Ly
-    );
+    ));
 
     // Store pointers, releasing those of a previous initialization
     enve_sfun_end();
-    MeshPtr  = static_cast<void *>(mesh);
-    FlatPtr  = static_cast<void *>(flat);
-    ShellPtr = static_cast<void *>(shell);
+    MeshPtr  = static_cast<void *>(mesh.release());
+    FlatPtr  = static_cast<void *>(flat.release());
+    ShellPtr = static_cast<void *>(shell.release());
 
     #undef CMD
   }
-- 
2.43.0

