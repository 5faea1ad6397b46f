From 0197b70ccf184c287f7e8c6705b17256e78794a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:33 +0000
Subject: [PATCH 01/82] fix: do not wait forever for packages skipped after a
 failure

---
 rcmd/install.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rcmd/install.go b/rcmd/install.go
index 28a40b3..e87d764 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -502,6 +502,7 @@ func InstallPackagePlan(
 		for p := range c {
 			if anyFailed {
 				// stop trying to install any more
+				wg.Done()
 				continue
 			}
 
@@ -510,6 +511,7 @@ func InstallPackagePlan(
 			_, seen := requestedPkgs[p]
 			if seen {
 				// should only need to request a package once to install
+				wg.Done()
 				continue
 			} else {
 				requestedPkgs[p] = true
-- 
2.43.0


From 7a775e0814fca139f2316dc3a34673cac854485a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:23 +0000
Subject: [PATCH 02/82] fix: do not hang when a built package cannot be copied
 to the cache

---
 rcmd/install.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rcmd/install.go b/rcmd/install.go
index e87d764..d6b00a1 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -483,6 +483,7 @@ func InstallPackagePlan(
 					log.WithFields(log.Fields{"from": iu.BinaryPath, "to": bpath}).Trace("copied binary")
 					if err != nil {
 						log.WithFields(log.Fields{"from": iu.BinaryPath, "to": bpath}).Error("error copying binary")
+						wg.Done()
 						return
 					}
 					// want to delete binaries from the existing tmpdir
-- 
2.43.0


From 7f6b16f202d47c6cee071d0387ae4958462fbf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:48 +0000
Subject: [PATCH 03/82] fix: report packages without dependencies left
 uninstalled after a failure

---
 rcmd/install.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rcmd/install.go b/rcmd/install.go
index d6b00a1..454ac4e 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -545,6 +545,14 @@ func InstallPackagePlan(
 			log.Errorf("did not install %s", pkg)
 		}
 	}
+	// packages without dependencies are not in DepDb
+	for _, pkg := range plan.StartingPackages {
+		_, needsDeps := plan.DepDb[pkg]
+		_, exists := installedPkgs[pkg]
+		if !exists && !needsDeps {
+			log.Errorf("did not install %s", pkg)
+		}
+	}
 
 	if anyFailed {
 		log.Errorf("installation failed for packages: %s", strings.Join(failedPkgs, ", "))
-- 
2.43.0


From be29ae6ca4013e927ce79c577aeccf9c4e87c585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:47 +0000
Subject: [PATCH 04/82] fix: do not attempt listed tarballs after packages they
 may need failed

---
 cmd/install.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmd/install.go b/cmd/install.go
index b8ad05a..60b78bf 100644
--- a/cmd/install.go
+++ b/cmd/install.go
@@ -132,7 +132,15 @@ func rInstall(cmd *cobra.Command, args []string) error {
 	//
 	// Install the tarballs, if applicable.
 	//
-	errInstallAdditional := installAdditionalPackages(installPlan, rSettings, cfg.Library, cfg.Cache)
+	var errInstallAdditional error
+	if err == nil {
+		errInstallAdditional = installAdditionalPackages(installPlan, rSettings, cfg.Library, cfg.Cache)
+	} else {
+		// what a tarball needs may be missing
+		for pkgName := range installPlan.AdditionalPackageSources {
+			log.WithField("package", pkgName).Error("did not install individual package because of failed packages")
+		}
+	}
 
 	log.WithField("duration", time.Since(startTime)).Info("total package install time")
 
-- 
2.43.0


From 9843ecc8d40053193f9fa205a7116f8f73f8eb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:56 +0000
Subject: [PATCH 05/82] fix: do not install recommended packages as suggestions
 when they are excluded

---
 gpsr/helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpsr/helpers.go b/gpsr/helpers.go
index 9258516..4ef899a 100644
--- a/gpsr/helpers.go
+++ b/gpsr/helpers.go
@@ -59,7 +59,7 @@ func appendToGraph(m Graph, d desc.Desc, dependencyConfigs InstallDeps, pkgNexus
 		// to the package specifically as requirements
 		for r := range d.Suggests {
 			_, ok := m[r]
-			if r != "R" && !ok {
+			if r != "R" && !ok && !isExcludedPackage(r, dependencyConfig.NoRecommended) {
 				//fmt.Println(d.Package, "-->", r)
 				pkg, _, exists := pkgNexus.GetPackage(r)
 				if exists {
-- 
2.43.0


From 97cbce442a01e062715cfcff2ea47bcf480f0e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:56 +0000
Subject: [PATCH 06/82] fix: do not crash when no packages are requested

---
 gpsr/solution.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gpsr/solution.go b/gpsr/solution.go
index 3816786..0b794d2 100644
--- a/gpsr/solution.go
+++ b/gpsr/solution.go
@@ -82,8 +82,12 @@ func ResolveInstallationReqs(
 
 	outdatedPackages := pacman.GetOutdatedPackages(preinstalledPkgs, pkgNexus.GetPackages(extractNamesFromDesc(preinstalledPkgs)).Packages)
 
+	var startingPackages []string
+	if len(resolved) > 0 { // empty if no packages are requested
+		startingPackages = resolved[0]
+	}
 	installPlan := InstallPlan{
-		StartingPackages:  resolved[0],
+		StartingPackages:  startingPackages,
 		DepDb:             depDb,
 		InstalledPackages: preinstalledPkgs,
 		OutdatedPackages:  outdatedPackages,
-- 
2.43.0


From c06ba1610a424577f2b90a05bf300f5a3933edbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:56 +0000
Subject: [PATCH 07/82] fix: install the Depends of listed tarballs and
 description files

---
 desc/structs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/desc/structs.go b/desc/structs.go
index 01806d7..797f5ff 100644
--- a/desc/structs.go
+++ b/desc/structs.go
@@ -81,6 +81,11 @@ type Desc struct {
 func (d *Desc) GetCombinedDependencies(suggests bool) map[string]Dep {
 	combined := map[string]Dep{}
 
+	for key, value := range d.Depends {
+		if key != "R" {
+			combined[key] = value
+		}
+	}
 	for key, value := range d.Imports {
 		combined[key] = value
 	}
-- 
2.43.0


From 282f04103d89973a4cb4679eccb38c14f33a2eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:24 +0000
Subject: [PATCH 08/82] fix: compare versions with more or fewer components as
 R does

---
 desc/version.go | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/desc/version.go b/desc/version.go
index 84dda6c..4b4985c 100644
--- a/desc/version.go
+++ b/desc/version.go
@@ -5,12 +5,16 @@ import (
 	"strconv"
 )
 
+var versionSep = regexp.MustCompile(`[\.-]`)
+
 // ParseVersion parses a package string to a version
 func ParseVersion(v string) Version {
 	ver := Version{String: v}
-	parts := regexp.MustCompile(`[\.-]`).Split(v, 4)
+	parts := versionSep.Split(v, -1)
 	ver.Major, _ = strconv.Atoi(parts[0])
-	ver.Minor, _ = strconv.Atoi(parts[1])
+	if len(parts) > 1 {
+		ver.Minor, _ = strconv.Atoi(parts[1])
+	}
 	if len(parts) > 2 {
 		ver.Patch, _ = strconv.Atoi(parts[2])
 	}
@@ -65,6 +69,34 @@ func CompareVersions(v1 Version, v2 Version) int {
 		return 1
 	}
 
+	if v1.String != "" && v2.String != "" {
+		return compareLength(v1.String, v2.String)
+	}
+	return 0
+}
+
+// compareLength compares versions that do not differ in the components of Version:
+// by what follows the fifth component, if anything, then as R does by their number
+// of components, so 1.0 is lower than 1.0.0
+func compareLength(v1 string, v2 string) int {
+	p1 := versionSep.Split(v1, -1)
+	p2 := versionSep.Split(v2, -1)
+	for i := 5; i < len(p1) && i < len(p2); i++ {
+		n1, _ := strconv.Atoi(p1[i])
+		n2, _ := strconv.Atoi(p2[i])
+		if n1 != n2 {
+			if n1 < n2 {
+				return -1
+			}
+			return 1
+		}
+	}
+	switch {
+	case len(p1) < len(p2):
+		return -1
+	case len(p1) > len(p2):
+		return 1
+	}
 	return 0
 }
 
-- 
2.43.0


From d6f241d5d982ac7e0ef3a7e7b4def89fabe736e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:24 +0000
Subject: [PATCH 09/82] fix: use the default type of the repository a package
 is customized to

---
 cran/pkg_nexus.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cran/pkg_nexus.go b/cran/pkg_nexus.go
index c235fa4..84eae23 100644
--- a/cran/pkg_nexus.go
+++ b/cran/pkg_nexus.go
@@ -133,7 +133,7 @@ func (pkgNexus *PkgNexus) GetPackage(pkg string) (desc.Desc, PkgConfig, bool) {
 	}
 	for _, db := range pkgNexus.Db {
 		rst := st
-		if db.DefaultSourceType != rst && !exists && db.DefaultSourceType != Default {
+		if db.DefaultSourceType != rst && (!exists || cfg.Type == Default) && db.DefaultSourceType != Default {
 			rst = db.DefaultSourceType
 		}
 		// For now package existence is checked exactly as the package is specified
-- 
2.43.0


From ad52f9fe9f710f50108f3a492a5263196e97df22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:32 +0000
Subject: [PATCH 10/82] fix: judge every requirement on R, and accept packages
 that require any R

---
 cran/repodb.go  | 7 +++++++
 desc/desc.go    | 6 ++++++
 desc/structs.go | 5 +++++
 3 files changed, 18 insertions(+)

diff --git a/cran/repodb.go b/cran/repodb.go
index 07014ee..911d690 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -277,6 +277,9 @@ func isRVersionCompatible(pkgDesc desc.Desc, rVersion RVersion) (desc.Dep, bool)
 	if present {
 		packageValid = checkRVersionCompatibility(rVersion, pkgRConstraint)
 	}
+	for _, constraint := range pkgDesc.OtherR {
+		packageValid = packageValid && checkRVersionCompatibility(rVersion, constraint)
+	}
 	return pkgRConstraint, packageValid
 }
 
@@ -302,6 +305,10 @@ func checkRVersionCompatibility(rVersion RVersion, pkgRConstraint desc.Dep) bool
 		packageValid = desc.CompareVersions(installationVersion, pkgRConstraint.Version) <= 0
 	case desc.Equals:
 		packageValid = desc.CompareVersions(installationVersion, pkgRConstraint.Version) == 0
+	case desc.NotEquals:
+		packageValid = desc.CompareVersions(installationVersion, pkgRConstraint.Version) != 0
+	case desc.None:
+		packageValid = true
 	default:
 		break
 	}
diff --git a/desc/desc.go b/desc/desc.go
index 7203ead..1c2607c 100644
--- a/desc/desc.go
+++ b/desc/desc.go
@@ -37,6 +37,9 @@ func ParseDep(d string) Dep {
 		} else if strings.Contains(pv, "<") {
 			dep.Constraint = LT
 			dep.Version = ParseVersion(strings.TrimSpace(strings.Replace(pv, "<", " ", 1)))
+		} else if strings.Contains(pv, "!=") {
+			dep.Constraint = NotEquals
+			dep.Version = ParseVersion(strings.TrimSpace(strings.Replace(pv, "!=", " ", 1)))
 		} else {
 			fmt.Println(pv)
 			panic(pv)
@@ -86,6 +89,9 @@ func NewDesc(d desc) Desc {
 	if len(d.Depends) > 0 {
 		for _, dp := range d.Depends {
 			dep := ParseDep(dp)
+			if other, again := dsc.Depends[dep.Name]; again && dep.Name == "R" {
+				dsc.OtherR = append(dsc.OtherR, other)
+			}
 			dsc.Depends[dep.Name] = dep
 		}
 	}
diff --git a/desc/structs.go b/desc/structs.go
index 797f5ff..2dc2382 100644
--- a/desc/structs.go
+++ b/desc/structs.go
@@ -15,6 +15,8 @@ func (c Constraint) ToString() string {
 		return "<="
 	case Equals:
 		return "=="
+	case NotEquals:
+		return "!="
 	default:
 		return "Unknown constraint"
 	}
@@ -29,6 +31,7 @@ const (
 	Equals
 	LTE
 	LT
+	NotEquals
 )
 
 // Version represents a package version
@@ -76,6 +79,8 @@ type Desc struct {
 	PkgrVersion        string
 	PkgrInstallType    string
 	PkgrRepositoryURL  string
+	// OtherR has the constraints on R other than the one in Depends, if there are several
+	OtherR []Dep
 }
 
 func (d *Desc) GetCombinedDependencies(suggests bool) map[string]Dep {
-- 
2.43.0


From dd5737730f11d2a2a82e87bf66fdf1f11719a625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:54 +0000
Subject: [PATCH 11/82] fix: do not install or leave behind packages whose
 download failed

---
 cmd/install.go           | 26 ++++++++++++++------------
 cran/download-package.go | 23 ++++++++++++++++++-----
 2 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/cmd/install.go b/cmd/install.go
index 60b78bf..5127187 100644
--- a/cmd/install.go
+++ b/cmd/install.go
@@ -73,7 +73,21 @@ func rInstall(cmd *cobra.Command, args []string) error {
 				"library": cfg.Library,
 			}).Fatal("library directory must exist before running pkgr in strict mode -- halting execution")
 		}
+	}
+
+	// Create a list of package download objects using our install plan and our "nexus" object.
+	// pkgsToDownload := getPackagesToDownload(installPlan, pkgNexus)
+
+	// Retrieve a cache to store any packages we need to download for the install.
+	packageCache := rcmd.NewPackageCache(userCache(cfg.Cache), false)
+
+	// Create a pkgMap object, which helps us with parallel downloads (?)
+	pkgMap, err := cran.DownloadPackages(fs, installPlan.PackageDownloads, packageCache.BaseDir, rVersion, cfg.NoSecure)
+	if err != nil {
+		log.Fatalf("error downloading packages: %s", err)
+	}
 
+	if installPlan.CreateLibrary {
 		err := fs.MkdirAll(cfg.Library, 0755)
 		if err != nil {
 			log.WithFields(log.Fields{
@@ -89,18 +103,6 @@ func rInstall(cmd *cobra.Command, args []string) error {
 	}
 	rollbackPlan.PrepareAdditionalPackagesForOverwrite(fs, cfg.Library)
 
-	// Create a list of package download objects using our install plan and our "nexus" object.
-	// pkgsToDownload := getPackagesToDownload(installPlan, pkgNexus)
-
-	// Retrieve a cache to store any packages we need to download for the install.
-	packageCache := rcmd.NewPackageCache(userCache(cfg.Cache), false)
-
-	// Create a pkgMap object, which helps us with parallel downloads (?)
-	pkgMap, err := cran.DownloadPackages(fs, installPlan.PackageDownloads, packageCache.BaseDir, rVersion, cfg.NoSecure)
-	if err != nil {
-		log.Fatalf("error downloading packages: %s", err)
-	}
-
 	// Set the arguments to be passed in to the R Package Installer
 	pkgInstallArgs := rcmd.NewDefaultInstallArgs()
 	pkgInstallArgs.Library, _ = filepath.Abs(cfg.Library)
diff --git a/cran/download-package.go b/cran/download-package.go
index 538efbc..59230ea 100644
--- a/cran/download-package.go
+++ b/cran/download-package.go
@@ -75,6 +75,7 @@ func DownloadPackages(fs afero.Fs, ds []PkgDl, baseDir string, rv RVersion, noSe
 	startTime := time.Now()
 	result := NewPkgMap()
 	sem := make(chan struct{}, 10)
+	errs := make(chan error, len(ds))
 	wg := sync.WaitGroup{}
 	rpm := getRepos(ds)
 	for _, r := range rpm {
@@ -123,9 +124,8 @@ func DownloadPackages(fs afero.Fs, ds []PkgDl, baseDir string, rv RVersion, noSe
 			startDl := time.Now()
 			dl, err := DownloadPackage(fs, d, pkgFile, rv, noSecure)
 			if err != nil {
-				// TODO:  should this cause a failure downstream rather than just printing
-				// as right now it keeps running and just doesn't install that package?
 				log.WithField("package", d.Package.Package).Warn("downloading failed")
+				errs <- fmt.Errorf("package %s: %w", d.Package.Package, err)
 				return
 			}
 
@@ -140,6 +140,9 @@ func DownloadPackages(fs afero.Fs, ds []PkgDl, baseDir string, rv RVersion, noSe
 		}(d, &wg)
 	}
 	wg.Wait()
+	if len(errs) > 0 {
+		return result, <-errs
+	}
 	log.WithField("duration", time.Since(startTime)).Info("all packages downloaded")
 	return result, nil
 }
@@ -216,7 +219,7 @@ func DownloadPackage(fs afero.Fs, d PkgDl, dest string, rv RVersion, noSecure bo
 			}).Warn("bad server response")
 			b, _ := ioutil.ReadAll(resp.Body)
 			log.WithField("package", d.Package.Package).Println("body: ", string(b))
-			return Download{Metadata: d}, err
+			return Download{Metadata: d}, fmt.Errorf("bad server response for %s: %s", pkgdl, resp.Status)
 		}
 		from = resp.Body
 		// not sure if we need to close both from and resp.Body but shouldn't be problematic to call twice just in case
@@ -227,12 +230,15 @@ func DownloadPackage(fs afero.Fs, d PkgDl, dest string, rv RVersion, noSecure bo
 			log.WithFields(log.Fields{
 				"package": d.Package.Package,
 				"path":    pkgdl,
-			}).Fatal("missing package")
+			}).Error("missing package")
+			return Download{Metadata: d}, err
 		}
 		defer from.Close()
 	}
 
-	file, err := fs.Create(dest)
+	// a file at dest is taken to be complete, so it only gets there once it is
+	partial := dest + ".partial"
+	file, err := fs.Create(partial)
 	if err != nil {
 		log.WithFields(log.Fields{
 			"package": d.Package,
@@ -242,7 +248,14 @@ func DownloadPackage(fs afero.Fs, d PkgDl, dest string, rv RVersion, noSecure bo
 	}
 	defer file.Close()
 	size, err := io.Copy(file, from)
+	if err == nil {
+		err = file.Close()
+	}
+	if err == nil {
+		err = fs.Rename(partial, dest)
+	}
 	if err != nil {
+		_ = fs.Remove(partial)
 		return Download{Metadata: d}, err
 	}
 
-- 
2.43.0


From e8cb19d9b948422f3cff1915e01689177793f373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:07 +0000
Subject: [PATCH 12/82] fix: fail the install of a package whose archive does
 not exist

---
 rcmd/install.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rcmd/install.go b/rcmd/install.go
index 454ac4e..5eb0522 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -112,6 +112,7 @@ func Install(
 		} else {
 			// nil error not ok
 			errs = fmt.Sprintf("%s does not exist", pkgPath)
+			err = errors.New(errs)
 		}
 		return CmdResult{
 			Stderr:   fmt.Sprintf("err: %s, ok: %v", errs, ok),
-- 
2.43.0


From 0d2dddc5199beae6935323955e8161c84db95afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 13/82] fix: never leave an incomplete build in the package
 cache

---
 rcmd/install.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index 5eb0522..bbcf2ef 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -480,7 +480,11 @@ func InstallPackagePlan(
 						rs.Version.ToString(),
 						filepath.Base(iu.BinaryPath),
 					)
-					_, err := goutils.Copy(iu.BinaryPath, bpath)
+					// a file at bpath is taken to be complete, so it only gets there once it is
+					_, err := goutils.Copy(iu.BinaryPath, bpath+".partial")
+					if err == nil {
+						err = os.Rename(bpath+".partial", bpath)
+					}
 					log.WithFields(log.Fields{"from": iu.BinaryPath, "to": bpath}).Trace("copied binary")
 					if err != nil {
 						log.WithFields(log.Fields{"from": iu.BinaryPath, "to": bpath}).Error("error copying binary")
-- 
2.43.0


From 7097d44483007e8dc58fb2e6cfe5ce79676c47bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 14/82] fix: fetch an unreadable package database again and
 never leave an incomplete one

---
 cran/repodb.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/cran/repodb.go b/cran/repodb.go
index 911d690..d0fe04c 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -69,18 +69,24 @@ func (repoDb *RepoDb) Encode(file string) error {
 	if err != nil {
 		return err
 	}
-	f, err := os.Create(file)
+	// a database at file is taken to be complete, so it only gets there once it is
+	f, err := ioutil.TempFile(filepath.Dir(file), "partial")
 	if err != nil {
 		return err
 	}
+	defer os.Remove(f.Name())
 	e := gob.NewEncoder(f)
 
 	// Encoding the map
 	err = e.Encode(repoDb.DescriptionsBySourceType)
 	if err != nil {
+		f.Close()
 		return err
 	}
-	return nil
+	if err = f.Close(); err != nil {
+		return err
+	}
+	return os.Rename(f.Name(), file)
 }
 
 // Hash provides a hash based on the RepoDb sources
@@ -133,7 +139,14 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 		}
 		if fi.ModTime().Add(time.Duration(maxSecs)*time.Second).Unix() > time.Now().Unix() {
 			// only read if was cached in the last hour
-			return repoDb.Decode(pkgdbFile)
+			err := repoDb.Decode(pkgdbFile)
+			if err == nil {
+				return nil
+			}
+			log.Warnf("could not read cached package database %s: %s, fetching it again...", pkgdbFile, err)
+			for st := range repoDb.DescriptionsBySourceType {
+				repoDb.DescriptionsBySourceType[st] = make(map[string]desc.Desc)
+			}
 		}
 		err := os.Remove(pkgdbFile)
 		if err != nil {
-- 
2.43.0


From 031e40885f06b923bbd17171a25d0b8391416de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:09 +0000
Subject: [PATCH 15/82] fix: do not take a package list that could not be
 fetched for an empty one

---
 cran/repodb.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/cran/repodb.go b/cran/repodb.go
index d0fe04c..341284b 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -157,6 +157,7 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 	type downloadDatabase struct {
 		St                    SourceType
 		AvailableDescriptions map[string]desc.Desc
+		Absent                bool // there is no such list, rather than it could not be fetched
 		Err                   error
 	}
 
@@ -188,6 +189,7 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 					downloadChannel <- downloadDatabase{
 						St:                    st,
 						AvailableDescriptions: descriptionMap,
+						Absent:                res.StatusCode >= 400 && res.StatusCode < 500,
 						Err:                   fmt.Errorf("failed fetching PACKAGES file from %s, with status %s", pkgURL, res.Status)}
 					return
 				}
@@ -211,9 +213,14 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 				if fi, err := os.Open(pkgdir); !os.IsNotExist(err) {
 					body, err = ioutil.ReadAll(fi)
 					fi.Close()
+					if err != nil {
+						err = fmt.Errorf("error reading %s: %s", pkgdir, err)
+						downloadChannel <- downloadDatabase{St: st, AvailableDescriptions: descriptionMap, Err: err}
+						return
+					}
 				} else {
 					err = fmt.Errorf("no package file found at: %s", pkgdir)
-					downloadChannel <- downloadDatabase{St: st, AvailableDescriptions: descriptionMap, Err: err}
+					downloadChannel <- downloadDatabase{St: st, AvailableDescriptions: descriptionMap, Absent: true, Err: err}
 					return
 				}
 			}
@@ -263,13 +270,16 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 
 	}
 	errorCount := 0
-	var lasterr error
+	var lasterr, fetchErr error
 	for i := 0; i < len(repoDb.DescriptionsBySourceType); i++ {
 		result := <-downloadChannel
 		if result.Err != nil {
 			log.Warnf("error downloading repo %s, type: %s, with information: %s\n", repoDb.Repo.Name, result.St, result.Err)
 			errorCount++
 			lasterr = result.Err
+			if !result.Absent {
+				fetchErr = result.Err
+			}
 			// if one repo fails should return the error and not continue
 			// as don't want a partial repodb as it might cause improperly pulled packages
 		} else {
@@ -277,9 +287,12 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 		}
 	}
 	// if only one source fails, this could be because it isn't present - eg if have binary/source but only source available
-	if len(repoDb.DescriptionsBySourceType) > 1 && errorCount == len(repoDb.DescriptionsBySourceType) {
+	if errorCount == len(repoDb.DescriptionsBySourceType) {
 		return lasterr
 	}
+	if fetchErr != nil {
+		return fetchErr
+	}
 
 	return repoDb.Encode(pkgdbFile)
 }
-- 
2.43.0


From ad857d4d89e950c9775aacbfeebd18125e38d76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:09 +0000
Subject: [PATCH 16/82] fix: keep the package databases of different repository
 suffixes apart

---
 cran/repodb.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cran/repodb.go b/cran/repodb.go
index 341284b..bb096d1 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -101,6 +101,10 @@ func (repoDb *RepoDb) Hash(rVersion string) string {
 	}
 
 	io.WriteString(h, repoDb.Repo.Name+repoDb.Repo.URL+fmt.Sprint(stsum)+rVersion)
+	if repoDb.RepoSuffix != "" {
+		// the suffix is part of where binaries come from
+		io.WriteString(h, " "+repoDb.RepoSuffix)
+	}
 	return fmt.Sprintf("%x", h.Sum(nil))
 }
 
-- 
2.43.0


From b8a9f28fb0005a2c5168da78769189fe395e4d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:47 +0000
Subject: [PATCH 17/82] fix: do not use what a failed unpacking of a tarball
 left behind

---
 cmd/tarballOps.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/tarballOps.go b/cmd/tarballOps.go
index 4bbd650..eb38151 100644
--- a/cmd/tarballOps.go
+++ b/cmd/tarballOps.go
@@ -84,8 +84,14 @@ func untar(fs afero.Fs, path string, cacheDir string) string {
 			"source_tarball": path,
 		}).Debug("using cached tarball.")
 	} else {
-		err = archive.Extract(path, tarballDirectoryPath)
+		// an existing directory is taken to be complete, so it only gets there once it is
+		partialPath := tarballDirectoryPath + ".partial"
+		err = archive.Extract(path, partialPath)
+		if err == nil {
+			err = fs.Rename(partialPath, tarballDirectoryPath)
+		}
 		if err != nil {
+			_ = fs.RemoveAll(partialPath)
 			logrus.WithFields(logrus.Fields{
 				"path": path,
 			}).Fatalf("error while unarchiving tarball: %s", err)
-- 
2.43.0


From b8d8d7acedcf546020f6eb015af3b2ff2b6aef51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:47 +0000
Subject: [PATCH 18/82] fix: back up a package that is both outdated and listed
 as tarball once

---
 rollback/types.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rollback/types.go b/rollback/types.go
index 9b827f8..442aa51 100644
--- a/rollback/types.go
+++ b/rollback/types.go
@@ -57,6 +57,10 @@ func (rp *RollbackPlan) PrepareAdditionalPackagesForOverwrite(fs afero.Fs, libra
 	var overwriteAttempts []UpdateAttempt
 	for pkg := range rp.InstallPlan.AdditionalPackageSources {
 		preinstPkg, isPreinstalled := rp.PreinstalledPackages[pkg]
+		for _, attempt := range rp.UpdateRollbacks {
+			// already backed up, as it is outdated too
+			isPreinstalled = isPreinstalled && attempt.Package != pkg
+		}
 		if isPreinstalled {
 			overwriteAttempt := tagOldInstallation(fs, library, cran.OutdatedPackage{
 				Package:    pkg,
-- 
2.43.0


From cd1ccdf0b5080d6be4e15d350f72b2d68b0c412c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:47 +0000
Subject: [PATCH 19/82] fix: never remove the only copy of a package when its
 backup or restoring it failed

---
 cmd/install.go         | 7 +++++--
 rollback/operations.go | 6 ++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/cmd/install.go b/cmd/install.go
index 5127187..8d1e247 100644
--- a/cmd/install.go
+++ b/cmd/install.go
@@ -146,10 +146,11 @@ func rInstall(cmd *cobra.Command, args []string) error {
 
 	log.WithField("duration", time.Since(startTime)).Info("total package install time")
 
+	var errRollback error
 	if !cfg.NoRollback {
 		// If anything went wrong during the installation, rollback the environment.
 		if err != nil || errInstallAdditional != nil {
-			errRollback := rollback.RollbackPackageEnvironment(fs, rollbackPlan)
+			errRollback = rollback.RollbackPackageEnvironment(fs, rollbackPlan)
 			if errRollback != nil {
 				log.WithFields(log.Fields{}).Error("failed to reset package environment after bad installation. Your package Library will be in a corrupt state. It is recommended you delete your Library and reinstall all packages.")
 			}
@@ -157,7 +158,9 @@ func rInstall(cmd *cobra.Command, args []string) error {
 	}
 	// If any packages were being updated, we need to remove any leftover backup folders that were created.
 	// Errors are handled in the lower functions
-	_ = rollbackPlan.DeleteBackupPackageFolders(fs)
+	if errRollback == nil {
+		_ = rollbackPlan.DeleteBackupPackageFolders(fs)
+	}
 
 	log.Info("duration:", time.Since(startTime))
 
diff --git a/rollback/operations.go b/rollback/operations.go
index fd901cf..7d77826 100644
--- a/rollback/operations.go
+++ b/rollback/operations.go
@@ -98,6 +98,12 @@ func rollbackChangedPackages(fileSystem afero.Fs, packageBackupInfo []UpdateAtte
 			"failed_to_update_to": info.NewVersion,
 		}).Warn("did not update package, restoring last-installed version")
 
+		backupExists, _ := afero.Exists(fileSystem, info.BackupPackageDirectory)
+		if !backupExists {
+			// never removed, so what is there is all there is
+			continue
+		}
+
 		_, err1 := fileSystem.Stat(info.ActivePackageDirectory) // Checking existence
 		if err1 == nil {
 			err1 = fileSystem.RemoveAll(info.ActivePackageDirectory)
-- 
2.43.0


From 9a290e68ff29b2071dbf0cabeb2a5d623e7d1e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:05 +0000
Subject: [PATCH 20/82] fix: keep outdated packages that were not updated when
 rollback is disabled

---
 rollback/operations.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rollback/operations.go b/rollback/operations.go
index 7d77826..e297d13 100644
--- a/rollback/operations.go
+++ b/rollback/operations.go
@@ -67,6 +67,15 @@ func DeleteBackupPackageFolders(fileSystem afero.Fs, packageBackupInfo []UpdateA
 	for _, info := range packageBackupInfo {
 
 		backupExists, _ := afero.Exists(fileSystem, info.BackupPackageDirectory)
+		activeExists, _ := afero.Exists(fileSystem, info.ActivePackageDirectory)
+		if backupExists && !activeExists {
+			// nothing took its place, so it is all there is
+			err1 := fileSystem.Rename(info.BackupPackageDirectory, info.ActivePackageDirectory)
+			if err1 != nil {
+				return err1
+			}
+			continue
+		}
 		//_, err1 := fileSystem.Stat(info.BackupPackageDirectory) // Checking existence
 		if backupExists {
 			err1 := fileSystem.RemoveAll(info.BackupPackageDirectory)
-- 
2.43.0


From d17c40ef44066041be335cbcbf442f368f43da6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:09 +0000
Subject: [PATCH 21/82] fix: never leave an incomplete DESCRIPTION in, or trust
 an incomplete package of, a library

---
 rcmd/install.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index bbcf2ef..a534156 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -268,7 +268,8 @@ func InstallThroughBinary(
 	fs afero.Fs,
 	ir InstallRequest,
 	pc PackageCache) (CmdResult, string, error) {
-	exists, _ := goutils.DirExists(fs, filepath.Join(ir.InstallArgs.Library, ir.Package))
+	// a directory without DESCRIPTION is what an interrupted removal leaves
+	exists, _ := goutils.Exists(fs, filepath.Join(ir.InstallArgs.Library, ir.Package, "DESCRIPTION"))
 	if exists {
 		log.WithFields(log.Fields{
 			"package": ir.Package,
@@ -595,7 +596,14 @@ func updateDescriptionInfo(fs afero.Fs, filename, version, installType, repoURL,
 
 // writes a slice of strings out to a file. Adds newline characters to the end of the each line.
 func writeUpdatedDescriptionFile(fs afero.Fs, filename string, update []string) error {
-	err := goutils.WriteLinesFS(fs, update, filename)
+	// replaced as a whole, so an interruption does not leave an incomplete file
+	err := goutils.WriteLinesFS(fs, update, filename+".partial")
+	if err == nil {
+		err = fs.Rename(filename+".partial", filename)
+	}
+	if err != nil {
+		_ = fs.Remove(filename + ".partial")
+	}
 
 	if err != nil {
 		log.WithFields(log.Fields{
-- 
2.43.0


From 22af3ef275cf123582f86e7be7ff3637f3b0b956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:09 +0000
Subject: [PATCH 22/82] fix: recover the library after an install was killed

---
 cmd/install.go         |  7 +++++
 pacman/utils.go        |  6 +++++
 rollback/operations.go | 61 +++++++++++++++++++++++++++++++++++++++++-
 3 files changed, 73 insertions(+), 1 deletion(-)

diff --git a/cmd/install.go b/cmd/install.go
index 8d1e247..0bd970f 100644
--- a/cmd/install.go
+++ b/cmd/install.go
@@ -63,6 +63,13 @@ func rInstall(cmd *cobra.Command, args []string) error {
 	// most people should know what platform they are on
 	log.Debugln("OS Platform " + rSettings.Platform)
 
+	if err := rollback.RecoverBackups(fs, cfg.Library); err != nil {
+		log.WithFields(log.Fields{
+			"library": cfg.Library,
+			"error":   err,
+		}).Fatal("could not restore packages after an interrupted install")
+	}
+
 	// Get master object containing the packages available in each repository (pkgNexus),
 	//  as well as a master install plan to guide our process.
 	_, installPlan, rollbackPlan := planInstall(rVersion, true)
diff --git a/pacman/utils.go b/pacman/utils.go
index d6db434..a287f8e 100644
--- a/pacman/utils.go
+++ b/pacman/utils.go
@@ -4,12 +4,14 @@ import (
 	"errors"
 	"fmt"
 	"path/filepath"
+	"strings"
 
 	"github.com/dpastoor/goutils"
 	"github.com/metrumresearchgroup/pkgr/cran"
 	"github.com/metrumresearchgroup/pkgr/desc"
 	log "github.com/sirupsen/logrus"
 	"github.com/spf13/afero"
+	"github.com/thoas/go-funk"
 )
 
 // GetPriorInstalledPackages ...
@@ -27,6 +29,10 @@ func GetPriorInstalledPackages(fileSystem afero.Fs, libraryPath string) map[stri
 	installedPackageFolders := goutils.ListDirNames(fileInfo)
 
 	for _, pkgFolder := range installedPackageFolders {
+		if active := strings.TrimPrefix(pkgFolder, "__OLD__"); active != pkgFolder && funk.ContainsString(installedPackageFolders, active) {
+			// the backup of a package that is there
+			continue
+		}
 		descriptionFilePath := filepath.Join(libraryPath, pkgFolder, "DESCRIPTION")
 		installedPackage, err := scanInstalledPackage(descriptionFilePath, fileSystem)
 
diff --git a/rollback/operations.go b/rollback/operations.go
index e297d13..e07d60d 100644
--- a/rollback/operations.go
+++ b/rollback/operations.go
@@ -5,6 +5,9 @@ import (
 	"github.com/sirupsen/logrus"
 	"github.com/spf13/afero"
 	"path/filepath"
+	"strings"
+
+	"github.com/metrumresearchgroup/pkgr/desc"
 )
 
 // RollbackPackageEnvironment "executes" the given RollbackPlan, thereby resetting the environment to the state it was in before rbp.InstallPlan was applied.
@@ -13,6 +16,11 @@ func RollbackPackageEnvironment(fileSystem afero.Fs, rbp RollbackPlan) error {
 	//reset packages
 	logrus.Trace("Resetting package environment")
 
+	for _, pkg := range rbp.NewPackages {
+		// without it a package is not taken for installed, should this be interrupted
+		_ = fileSystem.Remove(filepath.Join(rbp.Library, pkg, "DESCRIPTION"))
+	}
+
 	if rbp.InstallPlan.CreateLibrary {
 		err0 := fileSystem.RemoveAll(rbp.Library)
 
@@ -115,6 +123,8 @@ func rollbackChangedPackages(fileSystem afero.Fs, packageBackupInfo []UpdateAtte
 
 		_, err1 := fileSystem.Stat(info.ActivePackageDirectory) // Checking existence
 		if err1 == nil {
+			// without it the backup is what counts, should this be interrupted
+			_ = fileSystem.Remove(filepath.Join(info.ActivePackageDirectory, "DESCRIPTION"))
 			err1 = fileSystem.RemoveAll(info.ActivePackageDirectory)
 			if err1 != nil {
 				logrus.WithFields(logrus.Fields{
@@ -139,6 +149,55 @@ func rollbackChangedPackages(fileSystem afero.Fs, packageBackupInfo []UpdateAtte
 	return nil
 }
 
+const backupPrefix = "__OLD__"
+
+// RecoverBackups puts the library back in order after an install that was killed while
+// packages were backed up. A backup is restored unless the package that replaces it was
+// completely installed.
+func RecoverBackups(fileSystem afero.Fs, libraryPath string) error {
+	backups, err := afero.Glob(fileSystem, filepath.Join(libraryPath, backupPrefix+"*"))
+	if err != nil {
+		return err
+	}
+	for _, backup := range backups {
+		active := filepath.Join(libraryPath, strings.TrimPrefix(filepath.Base(backup), backupPrefix))
+		if replaced(fileSystem, active) {
+			err = fileSystem.RemoveAll(backup)
+		} else {
+			logrus.WithField("package dir", active).Warn("restoring package from the backup of an interrupted install")
+			err = fileSystem.RemoveAll(active)
+			if err == nil {
+				err = fileSystem.Rename(backup, active)
+			}
+		}
+		if err != nil {
+			return err
+		}
+	}
+	partials, err := afero.Glob(fileSystem, filepath.Join(libraryPath, "*", "DESCRIPTION.partial"))
+	if err != nil {
+		return err
+	}
+	for _, partial := range partials {
+		if err = fileSystem.Remove(partial); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+// replaced tells whether pkgr completed the installation of a package, which it ends
+// by recording it in the DESCRIPTION file.
+func replaced(fileSystem afero.Fs, packageDir string) bool {
+	f, err := fileSystem.Open(filepath.Join(packageDir, "DESCRIPTION"))
+	if err != nil {
+		return false
+	}
+	defer f.Close()
+	d, err := desc.ParseDesc(f)
+	return err == nil && d.PkgrRepositoryURL != ""
+}
+
 // createUpdateBackupFolders ...
 func createUpdateBackupFolders(fileSystem afero.Fs, libraryPath string, outdatedPackages []cran.OutdatedPackage) []UpdateAttempt {
 	var updateAttempts []UpdateAttempt
@@ -153,7 +212,7 @@ func createUpdateBackupFolders(fileSystem afero.Fs, libraryPath string, outdated
 
 func tagOldInstallation(fileSystem afero.Fs, libraryPath string, outdatedPackage cran.OutdatedPackage) UpdateAttempt {
 	packageDir := filepath.Join(libraryPath, outdatedPackage.Package)
-	taggedPackageDir := filepath.Join(libraryPath, "__OLD__"+outdatedPackage.Package)
+	taggedPackageDir := filepath.Join(libraryPath, backupPrefix+outdatedPackage.Package)
 
 	err := fileSystem.Rename(packageDir, taggedPackageDir)
 	//err := RenameDirRecursive(fileSystem, packageDir, taggedPackageDir)
-- 
2.43.0


From 8e7f9739c33b2d671af3a5a97440495d61477fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:47 +0000
Subject: [PATCH 23/82] fix: count only the packages an install replaces as to
 update or to install

---
 cmd/plan.go          |  7 +++----
 gpsr/dependencies.go | 24 ++++++++++++++++++------
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/cmd/plan.go b/cmd/plan.go
index 83490c7..9de453d 100644
--- a/cmd/plan.go
+++ b/cmd/plan.go
@@ -262,7 +262,7 @@ func planInstall(rv cran.RVersion, exitOnMissing bool) (*cran.PkgNexus, gpsr.Ins
 
 	pkgs := installPlan.GetAllPackages()
 
-	pkgsToUpdateCount := 0
+	packagesToUpdate := installPlan.GetPackagesToUpdate()
 	for _, p := range installPlan.OutdatedPackages {
 		updateLogFields := log.Fields{
 			"pkg":               p.Package,
@@ -271,9 +271,8 @@ func planInstall(rv cran.RVersion, exitOnMissing bool) (*cran.PkgNexus, gpsr.Ins
 		}
 		if cfg.NoUpdate {
 			log.WithFields(updateLogFields).Warn("outdated package found")
-		} else {
+		} else if funk.Contains(packagesToUpdate, p) {
 			log.WithFields(updateLogFields).Info("package will be updated")
-			pkgsToUpdateCount = len(installPlan.OutdatedPackages)
 		}
 	}
 
@@ -301,7 +300,7 @@ func planInstall(rv cran.RVersion, exitOnMissing bool) (*cran.PkgNexus, gpsr.Ins
 
 	log.WithFields(log.Fields{
 		"to_install": toInstall,
-		"to_update":  pkgsToUpdateCount,
+		"to_update":  len(packagesToUpdate),
 	}).Info("package installation plan")
 	log.Infof("Library path to install packages: %s\n", cfg.Library)
 
diff --git a/gpsr/dependencies.go b/gpsr/dependencies.go
index 0f1d113..fc30901 100644
--- a/gpsr/dependencies.go
+++ b/gpsr/dependencies.go
@@ -166,12 +166,24 @@ func (ip *InstallPlan) GetNumPackagesToInstall() int {
 			installedRequired = installedRequired + 1
 		}
 	}
-	toUpdate := 0
-	// Everything in OutdatedPackages should be required, otherwise pkgr wouldn't have checked for an updated version.
-	if ip.Update {
-		toUpdate = len(ip.OutdatedPackages)
-	}
+	// GetAllPackages lists a package that is required and also given as a tarball twice; it is installed once.
+	return len(funk.UniqString(requiredPackages)) - installedRequired + len(ip.GetPackagesToUpdate())
 
-	return len(requiredPackages) - installedRequired + toUpdate
+}
 
+// GetPackagesToUpdate returns the outdated packages that an install replaces by a newer version:
+// those that are part of the plan, if updating is enabled. Tarballs are always installed instead.
+func (ip *InstallPlan) GetPackagesToUpdate() []cran.OutdatedPackage {
+	var toUpdate []cran.OutdatedPackage
+	if !ip.Update {
+		return toUpdate
+	}
+	requiredPackages := ip.GetAllPackages()
+	for _, p := range ip.OutdatedPackages {
+		_, isAdditionalPkgInstallation := ip.AdditionalPackageSources[p.Package]
+		if funk.ContainsString(requiredPackages, p.Package) && !isAdditionalPkgInstallation {
+			toUpdate = append(toUpdate, p)
+		}
+	}
+	return toUpdate
 }
-- 
2.43.0


From 8b545b97210c3789d009ded24758b74f90cb59fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 24/82] fix: keep the package databases of source and of binary
 repositories apart

---
 cran/repodb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cran/repodb.go b/cran/repodb.go
index bb096d1..b7cc1e6 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -100,7 +100,7 @@ func (repoDb *RepoDb) Hash(rVersion string) string {
 		stsum += st + 1
 	}
 
-	io.WriteString(h, repoDb.Repo.Name+repoDb.Repo.URL+fmt.Sprint(stsum)+rVersion)
+	io.WriteString(h, repoDb.Repo.Name+repoDb.Repo.URL+fmt.Sprint(int(stsum))+rVersion)
 	if repoDb.RepoSuffix != "" {
 		// the suffix is part of where binaries come from
 		io.WriteString(h, " "+repoDb.RepoSuffix)
-- 
2.43.0


From 1e02daecbf5e09e8d0045fb8c6d03218cdb73aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 25/82] fix: do not crash when the cached package database
 cannot be examined

---
 cran/repodb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cran/repodb.go b/cran/repodb.go
index b7cc1e6..52ed4ea 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -130,7 +130,7 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 	var err error
 	pkgdbFile := repoDb.GetRepoDbCacheFilePath(rVersion.ToFullString())
 
-	if fi, err := os.Stat(pkgdbFile); !os.IsNotExist(err) {
+	if fi, err := os.Stat(pkgdbFile); err == nil {
 		maxSecs := 3600
 		maxAge, ok := os.LookupEnv("R_AVAILABLE_PACKAGES_CACHE_CONTROL_MAX_AGE")
 		if ok {
-- 
2.43.0


From 0c70a98f80f86abeb2fe3d0399f1d797bfb6c53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 26/82] fix: edit exactly the named entries of the package
 list, or fail

---
 configlib/add_package.go | 89 ++++++++++++++++++++++++++++++++--------
 configlib/config.go      | 48 +++++++++++++++-------
 2 files changed, 105 insertions(+), 32 deletions(-)

diff --git a/configlib/add_package.go b/configlib/add_package.go
index 75a816c..77df05e 100644
--- a/configlib/add_package.go
+++ b/configlib/add_package.go
@@ -1,15 +1,14 @@
 package configlib
 
 import (
-	"bufio"
-	"bytes"
+	"errors"
 	"fmt"
-	"github.com/dpastoor/goutils"
 	log "github.com/sirupsen/logrus"
 	"github.com/spf13/afero"
 	"github.com/spf13/viper"
 	"github.com/thoas/go-funk"
 	"gopkg.in/yaml.v3"
+	"reflect"
 	"strings"
 )
 
@@ -22,11 +21,7 @@ func AddPackages(pkgs []string) error {
 	if err != nil {
 		return err
 	}
-	var lines []string
-	scanner := bufio.NewScanner(bytes.NewReader(yf))
-	for scanner.Scan() {
-		lines = append(lines, scanner.Text())
-	}
+	lines := strings.Split(string(yf), "\n")
 
 	var pc PkgrConfig
 	err = yaml.Unmarshal(yf, &pc)
@@ -35,15 +30,68 @@ func AddPackages(pkgs []string) error {
 	}
 
 	for _, p := range pkgs {
-		if funk.ContainsString(pc.Packages, p) {
+		if funk.ContainsString(pc.Packages, p) || funk.ContainsString(pkgsToInstall, p) {
 			log.Debug(fmt.Sprintf("Package <%s> already found in <%s>", p, ymlfile))
 			continue
 		}
 		pkgsToInstall = append(pkgsToInstall, p)
 	}
-	newYml := insertPackages(lines, pkgsToInstall...)
-	err = goutils.WriteLines(newYml, ymlfile)
-	return err
+	if len(pkgsToInstall) == 0 {
+		return nil
+	}
+	newYml := []byte(strings.Join(insertPackages(lines, pkgsToInstall...), "\n"))
+	if err = checkEdit(yf, newYml, pkgsToInstall, nil); err != nil {
+		return fmt.Errorf("could not add packages to %s, please add them manually: %s", ymlfile, err)
+	}
+	return afero.WriteFile(appFS, ymlfile, newYml, 0666)
+}
+
+// checkEdit verifies that the only difference in meaning between two versions of a config file
+// is that added packages are listed and removed packages are not
+func checkEdit(before, after []byte, added []string, removed []string) error {
+	decode := func(yf []byte) (map[string]interface{}, []string, error) {
+		var pc PkgrConfig
+		all := make(map[string]interface{})
+		if err := yaml.Unmarshal(yf, &pc); err != nil {
+			return nil, nil, err
+		}
+		if err := yaml.Unmarshal(yf, &all); err != nil {
+			return nil, nil, err
+		}
+		delete(all, "Packages")
+		for name := range all {
+			if strings.EqualFold(name, "Packages") {
+				return nil, nil, fmt.Errorf("the package list is named %s instead of Packages", name)
+			}
+		}
+		return all, pc.Packages, nil
+	}
+	oldAll, oldPkgs, err := decode(before)
+	if err != nil {
+		return err
+	}
+	newAll, newPkgs, err := decode(after)
+	if err != nil {
+		return err
+	}
+	count := make(map[string]int)
+	for _, p := range append(oldPkgs, added...) {
+		if !funk.ContainsString(removed, p) {
+			count[p]++
+		}
+	}
+	for _, p := range newPkgs {
+		count[p]--
+	}
+	for p, n := range count {
+		if n != 0 {
+			return fmt.Errorf("unexpected layout of the package list at %s", p)
+		}
+	}
+	if !reflect.DeepEqual(oldAll, newAll) {
+		return errors.New("unexpected layout of the package list")
+	}
+	return nil
 }
 
 
@@ -74,25 +122,32 @@ func insertPackages(lines []string, pkgs ...string) []string {
 	}
 	if packageStartIndex == 0 && !packagesSet {
 		outputLines = lines
+		if n := len(lines); n > 0 && lines[n-1] == "" {
+			outputLines = lines[:n-1]
+		}
 		outputLines = append(outputLines, "", "Packages:")
 		for _, pkg := range pkgs {
 			outputLines = append(outputLines, "- " + pkg)
 		}
+		outputLines = append(outputLines, "")
 	} else {
 		outputLines = append(outputLines, lines[:packageStartIndex+1]...)
 		// given comments might precede packages, we need to find the first non-comment line
-		var firstPackageIndex int
-		for i, l := range lines[packageStartIndex:] {
+		numPadding := 0
+		for _, l := range lines[packageStartIndex+1:] {
 			if strings.HasPrefix(strings.TrimSpace(l), "-") {
-				firstPackageIndex = i
+				numPadding = strings.Index(l, "-")
 				break
 			}
 		}
-		numPadding := strings.Index(lines[packageStartIndex+firstPackageIndex], "-")
 
 		padding := strings.Repeat(" ", numPadding)
+		lineEnd := ""
+		if strings.HasSuffix(lines[packageStartIndex], "\r") {
+			lineEnd = "\r"
+		}
 		for _, pkg := range pkgs {
-			outputLines = append(outputLines, padding + "- " + pkg)
+			outputLines = append(outputLines, padding + "- " + pkg + lineEnd)
 		}
 		outputLines = append(outputLines, lines[packageStartIndex+1:]...)
 	}
diff --git a/configlib/config.go b/configlib/config.go
index 72a20fe..a386b51 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -15,6 +15,7 @@ import (
 	log "github.com/sirupsen/logrus"
 	"github.com/spf13/afero"
 	"github.com/spf13/viper"
+	"gopkg.in/yaml.v3"
 
 	"github.com/metrumresearchgroup/pkgr/cran"
 	"github.com/metrumresearchgroup/pkgr/gpsr"
@@ -248,28 +249,45 @@ func RemovePackage(name string) error {
 // remove remove a package from the Package section of the yml config file
 func remove(ymlfile string, packageName string) error {
 	appFS := afero.NewOsFs()
-	yf, _ := afero.ReadFile(appFS, ymlfile)
+	yf, err := afero.ReadFile(appFS, ymlfile)
+	if err != nil {
+		return err
+	}
 	fi, err := os.Stat(ymlfile)
 	if err != nil {
 		return err
 	}
-	var out []byte
-	i := 0
-	lines := bytes.Split(yf, []byte("\n"))
-	for _, line := range lines {
-		i++
-		// trim the line to detect the start of the list of packages
-		// but do not write the trimmed string as it may cause an
-		// unneeded file diff to the yml file
-		sline := bytes.TrimLeft(line, " ")
-		if bytes.HasPrefix(sline, []byte("- "+packageName)) {
-			continue
+	var doc yaml.Node
+	if err = yaml.Unmarshal(yf, &doc); err != nil {
+		return err
+	}
+	// the lines that list the package
+	drop := make(map[int]bool)
+	if len(doc.Content) > 0 {
+		fields := doc.Content[0].Content
+		for i := 0; i+1 < len(fields); i += 2 {
+			if fields[i].Value != "Packages" || fields[i+1].Kind != yaml.SequenceNode {
+				continue
+			}
+			for _, entry := range fields[i+1].Content {
+				if entry.Value == packageName {
+					drop[entry.Line] = true
+				}
+			}
 		}
-		out = append(out, line...)
-		if i < len(lines) {
-			out = append(out, []byte("\n")...)
+	}
+	var out []byte
+	for i, line := range bytes.SplitAfter(yf, []byte("\n")) {
+		if !drop[i+1] {
+			out = append(out, line...)
 		}
 	}
+	if err = checkEdit(yf, out, nil, []string{packageName}); err != nil {
+		return fmt.Errorf("could not remove %s from %s, please remove it manually: %s", packageName, ymlfile, err)
+	}
+	if len(drop) == 0 {
+		return nil
+	}
 	err = afero.WriteFile(appFS, ymlfile, out, fi.Mode())
 	if err != nil {
 		return err
-- 
2.43.0


From 44fc67aee0889c1069999f02eb8083d07aea05d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 27/82] fix: keep using the configuration given by a relative
 path after changing to its directory

---
 cmd/root.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/root.go b/cmd/root.go
index d28905d..15e715e 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -139,5 +139,8 @@ func initConfig() {
 		"nwd": filepath.Dir(configFilePath),
 	}).Trace("setting directory to configuration file")
 	_ = os.Chdir(filepath.Dir(configFilePath))
+	// a relative path no longer leads to the configuration from here
+	viper.SetConfigFile(configFilePath)
+	viper.Set("config", configFilePath)
 
 }
-- 
2.43.0


From 0a10bc1752f8b0ab815f66fa5787ee11c323afff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 28/82] fix: fail when clean cache is given contradictory
 options

---
 cmd/cleanCache.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cmd/cleanCache.go b/cmd/cleanCache.go
index 923c19c..2bfa08e 100644
--- a/cmd/cleanCache.go
+++ b/cmd/cleanCache.go
@@ -61,8 +61,7 @@ func init() {
 }
 
 func cache(cmd *cobra.Command, args []string) error {
-	cleanCacheFolders()
-	return nil
+	return cleanCacheFolders()
 }
 
 func cleanCacheFolders() error {
-- 
2.43.0


From 1d7aa5f301bea1effda28c5a99258078a1cc6a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 29/82] fix: do not crash when the cache to clean does not
 exist

---
 cmd/cleanCache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/cleanCache.go b/cmd/cleanCache.go
index 2bfa08e..a6d1111 100644
--- a/cmd/cleanCache.go
+++ b/cmd/cleanCache.go
@@ -135,10 +135,10 @@ func deleteCacheSubfolders(fs afero.Fs, repos []string, subfolder string, cacheD
 
 	//Filesystem object for the cache directory
 	cacheDirFsObject, err := fs.Open(cacheDirectory)
-	defer cacheDirFsObject.Close()
 	if err != nil {
 		return err
 	}
+	defer cacheDirFsObject.Close()
 
 	//File info object, I guess I needed this
 	cacheDirObject, _ := cacheDirFsObject.Readdir(0)
-- 
2.43.0


From 63b34d8b8cc24103092e69ef281d3e87d211db3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 30/82] fix: clean unpacked tarballs from the default cache
 rather than the project

---
 cmd/cleanCache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/cleanCache.go b/cmd/cleanCache.go
index a6d1111..fbf57b6 100644
--- a/cmd/cleanCache.go
+++ b/cmd/cleanCache.go
@@ -112,7 +112,7 @@ func cleanCacheFolders() error {
 			continue
 		}
 		openedTgz.Close()
-		err = fs.RemoveAll(filepath.Join(cfg.Cache, hashedDirectoryName))
+		err = fs.RemoveAll(filepath.Join(cachePath, hashedDirectoryName))
 		if err != nil {
 			log.WithFields(log.Fields{
 				"file":  tgzFile,
-- 
2.43.0


From 8660dbf9bca7f19fe4ff7c697b6c575bc1d74e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 31/82] fix: reject hard links in tarballs rather than
 unpacking empty files

---
 internal/archive/extract.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/archive/extract.go b/internal/archive/extract.go
index bc25c50..f00fa5d 100644
--- a/internal/archive/extract.go
+++ b/internal/archive/extract.go
@@ -85,6 +85,11 @@ func extractFile(ctx context.Context, fi archives.FileInfo, root *os.Root) error
 	case mode.IsDir():
 		return os.MkdirAll(filename, 0o777)
 	case mode.IsRegular():
+		// A hard link has the mode of a regular file but no contents.
+		if fi.LinkTarget != "" {
+			return fmt.Errorf("unsupported hard link: %q", fi.NameInArchive)
+		}
+
 		// Don't assume that an entry for each parent directory was already
 		// encountered or that an entry even exists (issue 259).
 		if err := os.MkdirAll(filepath.Dir(filename), 0o777); err != nil {
-- 
2.43.0


From 7c4c2a6c8948fe0d39ad52ab5d0f78cb62ee9705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 32/82] fix: reject tarballs whose compressed data is damaged

---
 internal/archive/extract.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/internal/archive/extract.go b/internal/archive/extract.go
index f00fa5d..ac6dd4b 100644
--- a/internal/archive/extract.go
+++ b/internal/archive/extract.go
@@ -51,6 +51,14 @@ func Extract(filename string, dir string) error {
 	}
 	defer r.Close()
 
+	// The end of the archive may come before the end of the compressed data,
+	// where its checksum is verified.
+	if ca, ok := format.(archives.CompressedArchive); ok && ca.Compression != nil {
+		if err := verify(r, ca.Compression); err != nil {
+			return fmt.Errorf("damaged archive: %q: %w", filename, err)
+		}
+	}
+
 	// Clear any existing destination.  In the context of R source tarballs, the
 	// set of files in the directory should match the set in the archive, with
 	// no extra files.
@@ -71,6 +79,22 @@ func Extract(filename string, dir string) error {
 	})
 }
 
+// verify reads all of a compressed file and rewinds it.
+func verify(r io.ReadSeeker, compression archives.Compression) error {
+	rc, err := compression.OpenReader(r)
+	if err != nil {
+		return err
+	}
+	defer rc.Close()
+
+	if _, err := io.Copy(io.Discard, rc); err != nil {
+		return err
+	}
+
+	_, err = r.Seek(0, io.SeekStart)
+	return err
+}
+
 func extractFile(ctx context.Context, fi archives.FileInfo, root *os.Root) error {
 	// root is responsible for ensuring that created files don't escape the
 	// target directory, but this guard avoids calling MkdirAll with a path that
-- 
2.43.0


From deb1d5a9ffb22b41e759d54474ae2f7d2767a440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 33/82] fix: do not let R_LIBS of the caller precede the
 library

---
 rcmd/configure.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rcmd/configure.go b/rcmd/configure.go
index 4a73e6b..a7c39a7 100644
--- a/rcmd/configure.go
+++ b/rcmd/configure.go
@@ -54,6 +54,11 @@ func configureEnv(sysEnvVars []string, rs RSettings, pkg string) []string {
 				log.WithField("path", evs[1]).Debug("overriding system R_LIBS_SITE")
 				continue
 			}
+			// R_LIBS takes precedence over both
+			if evs[0] == "R_LIBS" {
+				log.WithField("path", evs[1]).Debug("ignoring system R_LIBS")
+				continue
+			}
 			if evs[0] == "PATH" {
 				rDir := filepath.Dir(rs.Rpath)
 				if rDir != "" && rDir != "." && !strings.HasPrefix(evs[1], rDir) {
-- 
2.43.0


From 646c7d6d1002e30afbd26cb7432bbb98315ad76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 34/82] fix: put the directory of the configured R first in
 PATH though another one has its name as prefix

---
 rcmd/configure.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rcmd/configure.go b/rcmd/configure.go
index a7c39a7..05d7d87 100644
--- a/rcmd/configure.go
+++ b/rcmd/configure.go
@@ -61,7 +61,7 @@ func configureEnv(sysEnvVars []string, rs RSettings, pkg string) []string {
 			}
 			if evs[0] == "PATH" {
 				rDir := filepath.Dir(rs.Rpath)
-				if rDir != "" && rDir != "." && !strings.HasPrefix(evs[1], rDir) {
+				if rDir != "" && rDir != "." && !strings.HasPrefix(evs[1]+":", rDir+":") {
 					evs[1] = fmt.Sprintf("%s:%s", rDir, evs[1])
 					log.WithField("path", evs[1]).Debug("adding Rpath to front of system PATH")
 				}
-- 
2.43.0


From c963a3cb23e84f49910740c2f7b7483b09800468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:14 +0000
Subject: [PATCH 35/82] fix: hide the site library from installs of tarballs
 and cached packages

---
 cmd/install.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/install.go b/cmd/install.go
index 0bd970f..5def022 100644
--- a/cmd/install.go
+++ b/cmd/install.go
@@ -124,6 +124,8 @@ func rInstall(cmd *cobra.Command, args []string) error {
 	// Process any customizations set in the yaml config file for individual packages.
 	// Set ENV values in rSettings
 	rSettings = configlib.SetCustomizations(rSettings, cfg)
+	// no install may fall back to the default site library
+	rSettings.LibPaths = append(rSettings.LibPaths, pkgInstallArgs.Library)
 
 	//
 	// Install the packages
-- 
2.43.0


From d61b8e8d6d672e3f57cc8a39c3eee5c020f795c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 36/82] fix: give R the values of sensitive variables, hiding
 them from the logs only

---
 rcmd/RunR.go      | 10 +++++-----
 rcmd/configure.go | 33 ++++++++++++++++++++++++---------
 rcmd/install.go   |  4 ++--
 3 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/rcmd/RunR.go b/rcmd/RunR.go
index 5b434bf..bca1b97 100644
--- a/rcmd/RunR.go
+++ b/rcmd/RunR.go
@@ -22,7 +22,7 @@ func StartR(
 	rdir string, // this should be put into RSettings
 ) error {
 
-	envVars := configureEnv(os.Environ(), rs, pkg)
+	envVars := processEnv(os.Environ(), rs, pkg)
 	cmdArgs := []string{
 		"--vanilla",
 	}
@@ -31,7 +31,7 @@ func StartR(
 		log.Fields{
 			"cmdArgs":   cmdArgs,
 			"RSettings": rs,
-			"env":       envVars,
+			"env":       censorEnv(envVars),
 		}).Trace("command args")
 
 	// --vanilla is a command for R and should be specified before the CMD, eg
@@ -99,12 +99,12 @@ func RunRscriptWithArgs(
 	cmdArgs []string,
 	rdir string,
 ) ([]byte, error) {
-	envVars := configureEnv(os.Environ(), rs, pkg)
+	envVars := processEnv(os.Environ(), rs, pkg)
 	log.WithFields(
 		log.Fields{
 			"cmdArgs":   cmdArgs,
 			"RSettings": rs,
-			"env":       envVars,
+			"env":       censorEnv(envVars),
 		}).Trace("command args")
 
 	prog := convertToRscript(rs.R(runtime.GOOS))
@@ -128,7 +128,7 @@ func RunRBatch(
 	rs RSettings,
 	cmdArgs []string,
 ) ([]byte, error) {
-	envVars := configureEnv(os.Environ(), rs, "")
+	envVars := processEnv(os.Environ(), rs, "")
 	rpath := rs.R(runtime.GOOS)
 	log.WithFields(
 		log.Fields{
diff --git a/rcmd/configure.go b/rcmd/configure.go
index 05d7d87..a7c81c7 100644
--- a/rcmd/configure.go
+++ b/rcmd/configure.go
@@ -9,9 +9,31 @@ import (
 	log "github.com/sirupsen/logrus"
 )
 
+// configureEnv returns the environment of an R process with the values of
+// sensitive variables hidden, as it may be logged.
+func configureEnv(sysEnvVars []string, rs RSettings, pkg string) []string {
+	return censorEnv(processEnv(sysEnvVars, rs, pkg))
+}
+
+// censorEnv hides the values of sensitive variables.
+func censorEnv(envVars []string) []string {
+	censoredVars := censoredEnvVars(nil)
+	censored := []string{}
+	for _, ev := range envVars {
+		name := strings.SplitN(ev, "=", 2)[0]
+		if _, isCensored := censoredVars[strings.ToUpper(name)]; isCensored {
+			ev = name + "=**HIDDEN**"
+		}
+		censored = append(censored, ev)
+	}
+	return censored
+}
+
+// processEnv returns the environment to start an R process with.
+//
 // sysEnvVars contains the default environment variables usually from
 // os.Environ()
-func configureEnv(sysEnvVars []string, rs RSettings, pkg string) []string {
+func processEnv(sysEnvVars []string, rs RSettings, pkg string) []string {
 	envList := NvpList{}
 	envVars := []string{}
 
@@ -69,14 +91,7 @@ func configureEnv(sysEnvVars []string, rs RSettings, pkg string) []string {
 			// if exists would be custom to the package hence should not accept the system env
 			_, exists := envList.Get(evs[0])
 			if !exists {
-				displayValue := evs[1]
-				censoredVars := censoredEnvVars(nil)
-				_, isCensored := censoredVars[strings.ToUpper(evs[0])]
-
-				if isCensored {
-					displayValue = "**HIDDEN**"
-				}
-				envList.Append(evs[0], displayValue)
+				envList.Append(evs[0], evs[1])
 			}
 		}
 	}
diff --git a/rcmd/install.go b/rcmd/install.go
index a534156..d0261c1 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -120,7 +120,7 @@ func Install(
 		}, err
 	}
 
-	envVars := configureEnv(os.Environ(), rs, pkg)
+	envVars := processEnv(os.Environ(), rs, pkg)
 
 	cmdArgs := []string{
 		"--vanilla",
@@ -134,7 +134,7 @@ func Install(
 			"cmd":       "install",
 			"cmdArgs":   cmdArgs,
 			"RSettings": rs,
-			"env":       envVars,
+			"env":       censorEnv(envVars),
 			"package":   pkg,
 			"rpath":	 rs.R(runtime.GOOS),
 		}).Trace("command args")
-- 
2.43.0


From 39e9a48e8f53aa80c23063f84537e62968153af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:21 +0000
Subject: [PATCH 37/82] fix: set R_LIBS_SITE though the path of the library
 contains an equals sign

---
 rcmd/nvp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rcmd/nvp.go b/rcmd/nvp.go
index 76b3265..cc183f5 100644
--- a/rcmd/nvp.go
+++ b/rcmd/nvp.go
@@ -12,7 +12,7 @@ func (list *NvpList) Append(name, value string) {
 
 // AppendNvp append a string of name=value pair to the list as an Nvp object
 func (list *NvpList) AppendNvp(nvp string) {
-	b := strings.Split(nvp, "=")
+	b := strings.SplitN(nvp, "=", 2)
 	if len(b) == 2 {
 		list.Append(b[0], b[1])
 	}
-- 
2.43.0


From 07357e8bca891ce539672fb1429f1e3ab08514db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:21 +0000
Subject: [PATCH 38/82] fix: do not trim spaces from the environment of R

---
 rcmd/configure.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rcmd/configure.go b/rcmd/configure.go
index a7c81c7..cf01316 100644
--- a/rcmd/configure.go
+++ b/rcmd/configure.go
@@ -49,7 +49,7 @@ func processEnv(sysEnvVars []string, rs RSettings, pkg string) []string {
 		// not sure if this is needed when logging maps but for simple json want a single string
 		// so will also collect in a separate set of envs and log as a single combined string
 		for k, v := range pkgEnv {
-			envList.Append(k, v)
+			envList.Pairs = append(envList.Pairs, Nvp{Name: k, Value: v})
 		}
 		log.WithFields(log.Fields{
 			"envs":    pkgEnv,
@@ -91,7 +91,8 @@ func processEnv(sysEnvVars []string, rs RSettings, pkg string) []string {
 			// if exists would be custom to the package hence should not accept the system env
 			_, exists := envList.Get(evs[0])
 			if !exists {
-				envList.Append(evs[0], evs[1])
+				// not Append, which trims spaces
+				envList.Pairs = append(envList.Pairs, Nvp{Name: evs[0], Value: evs[1]})
 			}
 		}
 	}
-- 
2.43.0


From dd99b2fa1120e25e70e7f5f792ea1e2e9e590ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:57 +0000
Subject: [PATCH 39/82] fix: keep fields of DESCRIPTION that only mention
 pkgr's own

---
 rcmd/install.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index d0261c1..62d90a3 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -625,9 +625,9 @@ func updateDescriptionInfoByLines(lines []string, version, installType, repoURL,
 		//log.Info("Starting repo: " + repo)
 
 		// Don't add these lines to final set, if they exist. This way, we can add/"overwrite" them at the end.
-		if strings.Contains(line, "PkgrVersion:") ||
-			strings.Contains(line, "PkgrInstallType:") ||
-			strings.Contains(line, "PkgrRepositoryURL") {
+		if strings.HasPrefix(line, "PkgrVersion:") ||
+			strings.HasPrefix(line, "PkgrInstallType:") ||
+			strings.HasPrefix(line, "PkgrRepositoryURL:") {
 			continue
 		}
 
-- 
2.43.0


From 861a6d57bf64776e27e6a6765ddc241145b21cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 40/82] fix: do not cut the original repository at a colon

---
 rcmd/install.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index 62d90a3..f11769a 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -632,7 +632,7 @@ func updateDescriptionInfoByLines(lines []string, version, installType, repoURL,
 		}
 
 		if strings.HasPrefix(line, "Repository:") && strings.TrimSpace(line) != strings.TrimSpace("Repository: "+ repo) {
-			originalRepo := strings.Trim(strings.Split(line, ":")[1], " ")
+			originalRepo := strings.Trim(strings.SplitN(line, ":", 2)[1], " ")
 			newLines = append(newLines, "OriginalRepository: "+originalRepo)
 			line = "Repository: " + repo
 		}
-- 
2.43.0


From 691621770afad16cc6fcf284439ace8b470c5eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:59 +0000
Subject: [PATCH 41/82] fix: do not record a second original repository

---
 rcmd/install.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index f11769a..46573ce 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -620,6 +620,11 @@ func writeUpdatedDescriptionFile(fs afero.Fs, filename string, update []string)
 // returns the updated string slice, still without new-line characters.
 func updateDescriptionInfoByLines(lines []string, version, installType, repoURL, repo string) []string {
 
+	hasOriginal := false
+	for _, line := range lines {
+		hasOriginal = hasOriginal || strings.HasPrefix(line, "OriginalRepository:")
+	}
+
 	var newLines []string
 	for _, line := range lines {
 		//log.Info("Starting repo: " + repo)
@@ -633,7 +638,9 @@ func updateDescriptionInfoByLines(lines []string, version, installType, repoURL,
 
 		if strings.HasPrefix(line, "Repository:") && strings.TrimSpace(line) != strings.TrimSpace("Repository: "+ repo) {
 			originalRepo := strings.Trim(strings.SplitN(line, ":", 2)[1], " ")
-			newLines = append(newLines, "OriginalRepository: "+originalRepo)
+			if !hasOriginal {
+				newLines = append(newLines, "OriginalRepository: "+originalRepo)
+			}
 			line = "Repository: " + repo
 		}
 		newLines = append(newLines, line)
-- 
2.43.0


From c51f2ef88aaf958fb49e7fcdc4477a0582b78635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:01 +0000
Subject: [PATCH 42/82] fix: do not cut DESCRIPTION at a very long line

---
 rcmd/install.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index 46573ce..0a0e43e 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -584,10 +584,12 @@ func writeDescriptionInfo(fs afero.Fs, ir InstallRequest, ia InstallArgs) {
 // function to apply relevant changes to DESCRIPTION file (if applicable) and ultimately write out the updated
 // DESCRIPTION file.
 func updateDescriptionInfo(fs afero.Fs, filename, version, installType, repoURL, repo string) ([]string, error) {
-	descriptionLines, err := goutils.ReadLinesFS(fs, filename)
+	// not ReadLinesFS, which drops everything from a very long line on
+	content, err := afero.ReadFile(fs, filename)
 	if err != nil {
 		return nil, err
 	}
+	descriptionLines := strings.Split(strings.TrimSuffix(string(content), "\n"), "\n")
 	descriptionFinal := updateDescriptionInfoByLines(descriptionLines, version, installType, repoURL, repo)
 	err = writeUpdatedDescriptionFile(fs, filename, descriptionFinal)
 
-- 
2.43.0


From 643c36bec3a35bccfff91763fa22c9f33747f89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:26 +0000
Subject: [PATCH 43/82] fix: do not take a package list the server refused for
 now for one that does not exist

---
 cran/repodb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cran/repodb.go b/cran/repodb.go
index 52ed4ea..d570bb6 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -193,7 +193,7 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 					downloadChannel <- downloadDatabase{
 						St:                    st,
 						AvailableDescriptions: descriptionMap,
-						Absent:                res.StatusCode >= 400 && res.StatusCode < 500,
+						Absent:                res.StatusCode == 403 || res.StatusCode == 404 || res.StatusCode == 410,
 						Err:                   fmt.Errorf("failed fetching PACKAGES file from %s, with status %s", pkgURL, res.Status)}
 					return
 				}
-- 
2.43.0


From ff33af7e00ab64bb4a2c0d6a62e4508900933775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:34 +0000
Subject: [PATCH 44/82] fix: load every package once even if it is listed twice
 or also given as a tarball

---
 cmd/load.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/load.go b/cmd/load.go
index d57d5e7..340d9ba 100644
--- a/cmd/load.go
+++ b/cmd/load.go
@@ -16,6 +16,7 @@ import (
 
 	log "github.com/sirupsen/logrus"
 	"github.com/spf13/cobra"
+	"github.com/thoas/go-funk"
 )
 
 // loadCmd represents the load command
@@ -96,6 +97,9 @@ func load(userPackages []string, rs rcmd.RSettings, rDir string, threads int, al
 		toLoad = userPackages
 	}
 
+	// a package may be listed twice, or be required and also given as a tarball
+	toLoad = funk.UniqString(toLoad)
+
 	report := InitLoadReport(getRSessionMetadata(rs, rDir))
 
 	resultsChannel := make(chan LoadResult, len(toLoad))
-- 
2.43.0


From 9dc1bade9bdefb566e034aa3939ed0d291e57eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:34 +0000
Subject: [PATCH 45/82] fix: do not hang in load when the number of threads is
 0 or negative

---
 cmd/load.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/load.go b/cmd/load.go
index 340d9ba..a95c497 100644
--- a/cmd/load.go
+++ b/cmd/load.go
@@ -99,6 +99,7 @@ func load(userPackages []string, rs rcmd.RSettings, rDir string, threads int, al
 
 	// a package may be listed twice, or be required and also given as a tarball
 	toLoad = funk.UniqString(toLoad)
+	threads = getWorkerCount(threads, runtime.GOMAXPROCS(0))
 
 	report := InitLoadReport(getRSessionMetadata(rs, rDir))
 
-- 
2.43.0


From 128a8cb6529458e4548c6e433e42cb5a75d8d74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:51 +0000
Subject: [PATCH 46/82] fix: use at most eight workers unless a number is
 configured, as documented

---
 configlib/config.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/configlib/config.go b/configlib/config.go
index a386b51..a86ad5f 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -8,7 +8,6 @@ import (
 	"os"
 	"os/exec"
 	"path/filepath"
-	"runtime"
 	"strings"
 
 	homedir "github.com/mitchellh/go-homedir"
@@ -216,8 +215,8 @@ func loadDefaultSettings() {
 	viper.SetDefault("loglevel", "info")
 	// path to R on system, defaults to R in path
 	viper.SetDefault("rpath", "R")
-	// setting this to GOMAXPROCS(0) because NumCPU() won't work well with the scheduler.
-	viper.SetDefault("threads", runtime.GOMAXPROCS(0))
+	// 0 means no setting: the number of workers is chosen by the command, with a cap
+	viper.SetDefault("threads", 0)
 }
 
 // IsCustomizationSet ...
-- 
2.43.0


From be2802499db49ebfd917dd866463f7d82e014598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 47/82] fix: install a requested recommended package before the
 packages that need it

---
 gpsr/dependencies.go |  3 ++-
 gpsr/helpers.go      | 11 +++++++----
 gpsr/solution.go     |  7 +++++++
 gpsr/structs.go      |  5 +++--
 4 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/gpsr/dependencies.go b/gpsr/dependencies.go
index fc30901..d133bbf 100644
--- a/gpsr/dependencies.go
+++ b/gpsr/dependencies.go
@@ -59,7 +59,8 @@ func ResolveLayers(graph Graph, noRecommended bool) ([][]string, error) {
 
 		dependencySet := mapset.NewSet()
 		for _, dep := range node.Deps {
-			if !isExcludedPackage(dep, noRecommended) {
+			_, inGraph := graph[dep]
+			if inGraph || !isExcludedPackage(dep, noRecommended) {
 				dependencySet.Add(dep)
 			}
 		}
diff --git a/gpsr/helpers.go b/gpsr/helpers.go
index 4ef899a..9bdf082 100644
--- a/gpsr/helpers.go
+++ b/gpsr/helpers.go
@@ -21,10 +21,13 @@ func appendToGraph(m Graph, d desc.Desc, dependencyConfigs InstallDeps, pkgNexus
 		dependencyConfig = dependencyConfigs.Default
 	}
 	log.WithField("pkg", d.Package).WithField("config", dependencyConfig).Trace("dep config")
+	excluded := func(pkg string) bool {
+		return isExcludedPackage(pkg, dependencyConfig.NoRecommended) && !dependencyConfigs.Requested[pkg]
+	}
 	if dependencyConfig.Depends {
 		for r := range d.Depends {
 			_, _, ok := pkgNexus.GetPackage(r)
-			if ok && !isExcludedPackage(r, dependencyConfig.NoRecommended) {
+			if ok && !excluded(r) {
 				reqs = append(reqs, r)
 			} else {
 				log.WithField("pkg", d.Package).WithField("dep", r).Trace("skipping Depends dep")
@@ -34,7 +37,7 @@ func appendToGraph(m Graph, d desc.Desc, dependencyConfigs InstallDeps, pkgNexus
 	if dependencyConfig.Imports {
 		for r := range d.Imports {
 			_, _, ok := pkgNexus.GetPackage(r)
-			if ok && !isExcludedPackage(r, dependencyConfig.NoRecommended) {
+			if ok && !excluded(r) {
 				reqs = append(reqs, r)
 			} else {
 				log.WithField("pkg", d.Package).WithField("dep", r).Trace("skipping Imports dep")
@@ -44,7 +47,7 @@ func appendToGraph(m Graph, d desc.Desc, dependencyConfigs InstallDeps, pkgNexus
 	if dependencyConfig.LinkingTo {
 		for r := range d.LinkingTo {
 			_, _, ok := pkgNexus.GetPackage(r)
-			if ok && !isExcludedPackage(r, dependencyConfig.NoRecommended) {
+			if ok && !excluded(r) {
 				reqs = append(reqs, r)
 			} else {
 				log.WithField("pkg", d.Package).WithField("dep", r).Trace("skipping LinkingTo dep")
@@ -59,7 +62,7 @@ func appendToGraph(m Graph, d desc.Desc, dependencyConfigs InstallDeps, pkgNexus
 		// to the package specifically as requirements
 		for r := range d.Suggests {
 			_, ok := m[r]
-			if r != "R" && !ok && !isExcludedPackage(r, dependencyConfig.NoRecommended) {
+			if r != "R" && !ok && !excluded(r) {
 				//fmt.Println(d.Package, "-->", r)
 				pkg, _, exists := pkgNexus.GetPackage(r)
 				if exists {
diff --git a/gpsr/solution.go b/gpsr/solution.go
index 0b794d2..2638a25 100644
--- a/gpsr/solution.go
+++ b/gpsr/solution.go
@@ -31,6 +31,13 @@ func ResolveInstallationReqs(
 		val.NoRecommended = noRecommended
 		dependencyConfigs.Deps[dep] = val
 	}
+	// what is requested is ordered with the rest of the plan even if recommended packages are otherwise ignored
+	requested := make(map[string]bool)
+	for _, p := range pkgs {
+		requested[p] = true
+	}
+	dependencyConfigs.Requested = requested
+	defaultDependencyConfigs.Requested = requested
 	depDb := make(map[string][]string)
 
 	for _, p := range pkgs {
diff --git a/gpsr/structs.go b/gpsr/structs.go
index ae4c550..ae38a7e 100644
--- a/gpsr/structs.go
+++ b/gpsr/structs.go
@@ -35,6 +35,7 @@ type PkgDeps struct {
 
 // InstallDeps contains the information about dependencies to be installed
 type InstallDeps struct {
-	Deps    map[string]PkgDeps
-	Default PkgDeps
+	Deps      map[string]PkgDeps
+	Default   PkgDeps
+	Requested map[string]bool // packages that are part of the plan even if recommended packages are not
 }
-- 
2.43.0


From b36578c15415aa2b7694949116367679b66a5142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:31 +0000
Subject: [PATCH 48/82] fix: show reverse dependencies in inspect --reverse
 --tree

---
 cmd/inspect.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cmd/inspect.go b/cmd/inspect.go
index f74da87..9422040 100644
--- a/cmd/inspect.go
+++ b/cmd/inspect.go
@@ -20,7 +20,6 @@ import (
 
 	"github.com/metrumresearchgroup/pkgr/logger"
 
-	"github.com/metrumresearchgroup/pkgr/gpsr"
 	"github.com/metrumresearchgroup/pkgr/pacman"
 	"github.com/metrumresearchgroup/pkgr/rcmd"
 	"github.com/spf13/cobra"
@@ -62,14 +61,14 @@ var toJson bool
 var tree bool
 var installedFrom bool
 
-func recurseDeps(pkg string, ddb gpsr.InstallPlan, t treeprint.Tree) {
-	pkgDeps := ddb.DepDb[pkg]
+func recurseDeps(pkg string, deps map[string][]string, t treeprint.Tree) {
+	pkgDeps := deps[pkg]
 	sort.Strings(pkgDeps)
 	if len(pkgDeps) == 0 {
 		return
 	}
 	for _, d := range pkgDeps {
-		recurseDeps(d, ddb, t.AddBranch(d))
+		recurseDeps(d, deps, t.AddBranch(d))
 	}
 }
 
@@ -105,20 +104,21 @@ func inspect(cmd *cobra.Command, args []string) error {
 			for _, arg := range args {
 				keepDeps[arg] = allDeps[arg]
 			}
-			printDeps(keepDeps, tree, ip)
+			printDeps(keepDeps, allDeps, tree)
 		} else {
-			printDeps(allDeps, tree, ip)
+			printDeps(allDeps, allDeps, tree)
 		}
 	}
 	return nil
 }
 
-func printDeps(deps map[string][]string, tree bool, ip gpsr.InstallPlan) {
+// printDeps shows the packages of deps, as trees down to the leaves of allDeps if tree is set.
+func printDeps(deps, allDeps map[string][]string, tree bool) {
 	if tree {
 		depTree := treeprint.New()
 		for p := range deps {
 			tb := depTree.AddBranch(p)
-			recurseDeps(p, ip, tb)
+			recurseDeps(p, allDeps, tb)
 		}
 		fmt.Println(depTree.String())
 	} else {
-- 
2.43.0


From 2f34687ea61f596b3475df15e5688ef17b185152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:22 +0000
Subject: [PATCH 49/82] fix: resolve RPath and the library of a lockfile from
 the directory of the configuration

---
 cmd/root.go         | 17 ++++++++++++-----
 configlib/config.go |  9 ++++++++-
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/cmd/root.go b/cmd/root.go
index 15e715e..2748eba 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -16,6 +16,7 @@ package cmd
 
 import (
 	"fmt"
+	"github.com/mitchellh/go-homedir"
 	log "github.com/sirupsen/logrus"
 	"github.com/spf13/afero"
 	"github.com/spf13/cobra"
@@ -127,18 +128,24 @@ func initConfig() {
 	}
 
 	log.Trace("attempting to load config file")
-	configlib.NewConfig(viper.GetString("config"), &cfg)
-
-	if update {
-		cfg.NoUpdate = false
+	// relative paths are relative to the configuration file
+	configFilePath := viper.GetString("config")
+	if configFilePath == "" {
+		configFilePath = "pkgr.yml"
 	}
-	configFilePath, _ := filepath.Abs(viper.ConfigFileUsed())
+	configFilePath, _ = homedir.Expand(configFilePath)
+	configFilePath, _ = filepath.Abs(configFilePath)
 	cwd, _ := os.Getwd()
 	log.WithFields(log.Fields{
 		"cwd": cwd,
 		"nwd": filepath.Dir(configFilePath),
 	}).Trace("setting directory to configuration file")
 	_ = os.Chdir(filepath.Dir(configFilePath))
+	configlib.NewConfig(configFilePath, &cfg)
+
+	if update {
+		cfg.NoUpdate = false
+	}
 	// a relative path no longer leads to the configuration from here
 	viper.SetConfigFile(configFilePath)
 	viper.Set("config", configFilePath)
diff --git a/configlib/config.go b/configlib/config.go
index a86ad5f..4910920 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -44,6 +44,14 @@ func NewConfig(cfgPath string, cfg *PkgrConfig) {
 		log.Fatalf("error parsing pkgr.yml: %s\n", err)
 	}
 
+	cfg.RPath = expandTilde(cfg.RPath)
+	if strings.ContainsRune(cfg.RPath, filepath.Separator) {
+		// R is started in other directories too
+		if abs, err := filepath.Abs(cfg.RPath); err == nil {
+			cfg.RPath = abs
+		}
+	}
+
 	if len(cfg.Library) == 0 {
 		rs := rcmd.NewRSettings(cfg.RPath)
 		rVersion := rcmd.GetRVersion(&rs)
@@ -52,7 +60,6 @@ func NewConfig(cfgPath string, cfg *PkgrConfig) {
 
 	// For all cfg	values that can be repos, make sure that ~ is expanded to the home directory.
 	cfg.Library = expandTilde(cfg.Library)
-	cfg.RPath = expandTilde(cfg.RPath)
 	cfg.Tarballs = expandTildes(cfg.Tarballs)
 	cfg.Descriptions = expandTildes(cfg.Descriptions)
 	cfg.Repos = expandTildesRepos(cfg.Repos)
-- 
2.43.0


From 2c081c12527290b04eb409001e82fd19fbca97fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:56 +0000
Subject: [PATCH 50/82] fix: recover interrupted installs in libraries whose
 path has glob characters

---
 rollback/operations.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/rollback/operations.go b/rollback/operations.go
index e07d60d..36aab5e 100644
--- a/rollback/operations.go
+++ b/rollback/operations.go
@@ -4,6 +4,7 @@ import (
 	"github.com/metrumresearchgroup/pkgr/cran"
 	"github.com/sirupsen/logrus"
 	"github.com/spf13/afero"
+	"os"
 	"path/filepath"
 	"strings"
 
@@ -155,12 +156,19 @@ const backupPrefix = "__OLD__"
 // packages were backed up. A backup is restored unless the package that replaces it was
 // completely installed.
 func RecoverBackups(fileSystem afero.Fs, libraryPath string) error {
-	backups, err := afero.Glob(fileSystem, filepath.Join(libraryPath, backupPrefix+"*"))
+	entries, err := afero.ReadDir(fileSystem, libraryPath)
 	if err != nil {
+		if os.IsNotExist(err) {
+			return nil
+		}
 		return err
 	}
-	for _, backup := range backups {
-		active := filepath.Join(libraryPath, strings.TrimPrefix(filepath.Base(backup), backupPrefix))
+	for _, entry := range entries {
+		if !strings.HasPrefix(entry.Name(), backupPrefix) {
+			continue
+		}
+		backup := filepath.Join(libraryPath, entry.Name())
+		active := filepath.Join(libraryPath, strings.TrimPrefix(entry.Name(), backupPrefix))
 		if replaced(fileSystem, active) {
 			err = fileSystem.RemoveAll(backup)
 		} else {
@@ -174,13 +182,12 @@ func RecoverBackups(fileSystem afero.Fs, libraryPath string) error {
 			return err
 		}
 	}
-	partials, err := afero.Glob(fileSystem, filepath.Join(libraryPath, "*", "DESCRIPTION.partial"))
-	if err != nil {
-		return err
-	}
-	for _, partial := range partials {
-		if err = fileSystem.Remove(partial); err != nil {
-			return err
+	for _, entry := range entries {
+		partial := filepath.Join(libraryPath, entry.Name(), "DESCRIPTION.partial")
+		if found, _ := afero.Exists(fileSystem, partial); found {
+			if err = fileSystem.Remove(partial); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 30c17f161194bc4dfa39780e59ab219d3089f5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:23 +0000
Subject: [PATCH 51/82] fix: use the configured proxy with NoSecure as well

---
 cran/download-package.go | 1 +
 cran/repodb.go           | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cran/download-package.go b/cran/download-package.go
index 59230ea..b72ae39 100644
--- a/cran/download-package.go
+++ b/cran/download-package.go
@@ -197,6 +197,7 @@ func DownloadPackage(fs afero.Fs, d PkgDl, dest string, rv RVersion, noSecure bo
 	client := &http.Client{}
 	if noSecure {
 		tr := &http.Transport{
+			Proxy:           http.ProxyFromEnvironment,
 			TLSClientConfig: &tls.Config{InsecureSkipVerify : true},
 		}
 		client = &http.Client{Transport: tr}
diff --git a/cran/repodb.go b/cran/repodb.go
index d570bb6..1d00044 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -168,6 +168,7 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 	client := &http.Client{}
 	if noSecure {
 		tr := &http.Transport{
+			Proxy:           http.ProxyFromEnvironment,
 			TLSClientConfig: &tls.Config{InsecureSkipVerify : true},
 		}
 		client = &http.Client{Transport: tr}
-- 
2.43.0


From aec42fdda07e0ec148fb5cb080026032fb0dd7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:30 +0000
Subject: [PATCH 52/82] fix: hide sensitive values of package environments in
 trace logs

---
 rcmd/RunR.go      |  6 +++---
 rcmd/configure.go | 20 +++++++++++++++++++-
 rcmd/install.go   |  2 +-
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/rcmd/RunR.go b/rcmd/RunR.go
index bca1b97..c9a424e 100644
--- a/rcmd/RunR.go
+++ b/rcmd/RunR.go
@@ -30,7 +30,7 @@ func StartR(
 	log.WithFields(
 		log.Fields{
 			"cmdArgs":   cmdArgs,
-			"RSettings": rs,
+			"RSettings": censorSettings(rs),
 			"env":       censorEnv(envVars),
 		}).Trace("command args")
 
@@ -103,7 +103,7 @@ func RunRscriptWithArgs(
 	log.WithFields(
 		log.Fields{
 			"cmdArgs":   cmdArgs,
-			"RSettings": rs,
+			"RSettings": censorSettings(rs),
 			"env":       censorEnv(envVars),
 		}).Trace("command args")
 
@@ -133,7 +133,7 @@ func RunRBatch(
 	log.WithFields(
 		log.Fields{
 			"cmdArgs":   cmdArgs,
-			"RSettings": rs,
+			"RSettings": censorSettings(rs),
 			"rpath":     rpath,
 		}).Trace("command args")
 
diff --git a/rcmd/configure.go b/rcmd/configure.go
index cf01316..151ba70 100644
--- a/rcmd/configure.go
+++ b/rcmd/configure.go
@@ -29,6 +29,24 @@ func censorEnv(envVars []string) []string {
 	return censored
 }
 
+// censorSettings returns a copy of the settings with the values of sensitive
+// variables hidden, as it may be logged.
+func censorSettings(rs RSettings) RSettings {
+	censoredVars := censoredEnvVars(nil)
+	pkgEnvVars := make(map[string]map[string]string)
+	for pkg, envVars := range rs.PkgEnvVars {
+		pkgEnvVars[pkg] = make(map[string]string)
+		for name, value := range envVars {
+			if _, isCensored := censoredVars[strings.ToUpper(name)]; isCensored {
+				value = "**HIDDEN**"
+			}
+			pkgEnvVars[pkg][name] = value
+		}
+	}
+	rs.PkgEnvVars = pkgEnvVars
+	return rs
+}
+
 // processEnv returns the environment to start an R process with.
 //
 // sysEnvVars contains the default environment variables usually from
@@ -52,7 +70,7 @@ func processEnv(sysEnvVars []string, rs RSettings, pkg string) []string {
 			envList.Pairs = append(envList.Pairs, Nvp{Name: k, Value: v})
 		}
 		log.WithFields(log.Fields{
-			"envs":    pkgEnv,
+			"envs":    censorSettings(rs).PkgEnvVars[pkg],
 			"package": pkg,
 		}).Trace("Custom Environment Variables")
 	}
diff --git a/rcmd/install.go b/rcmd/install.go
index 0a0e43e..8e03912 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -133,7 +133,7 @@ func Install(
 		log.Fields{
 			"cmd":       "install",
 			"cmdArgs":   cmdArgs,
-			"RSettings": rs,
+			"RSettings": censorSettings(rs),
 			"env":       censorEnv(envVars),
 			"package":   pkg,
 			"rpath":	 rs.R(runtime.GOOS),
-- 
2.43.0


From 3127192304a6f8586be2392641db8201def65113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:19 +0000
Subject: [PATCH 53/82] fix: keep binaries built from source apart from those
 of the repository in the cache

---
 rcmd/install.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index 8e03912..ca28d79 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -222,6 +222,9 @@ func Install(
 	return cmdResult, err
 }
 
+// builtDir keeps the binaries built from source apart from those of the repository.
+const builtDir = "built"
+
 // isInCache notes if package binary already available in cache
 // and returns a new installrequest based on the binary path if available
 func isInCache(
@@ -238,8 +241,13 @@ func isInCache(
 		repoHash,
 		"binary",
 		ir.RSettings.Version.ToString(),
+		builtDir,
 		binaryName(pkg.Package, pkg.Version, ir.RSettings.Platform),
 	)
+	if meta.Metadata.Config.Type == cran.Binary {
+		// what was downloaded is a binary
+		bpath = meta.Path
+	}
 	exists, err := goutils.Exists(fs, bpath)
 	if !exists || err != nil {
 		log.WithFields(log.Fields{
@@ -475,12 +483,13 @@ func InstallPackagePlan(
 						filepath.Dir(filepath.Dir(pkg.Path)),
 						"binary",
 					)
-					os.Mkdir(bdir, 0777)
 					bpath := filepath.Join(
 						bdir,
 						rs.Version.ToString(),
+						builtDir,
 						filepath.Base(iu.BinaryPath),
 					)
+					os.MkdirAll(filepath.Dir(bpath), 0777)
 					// a file at bpath is taken to be complete, so it only gets there once it is
 					_, err := goutils.Copy(iu.BinaryPath, bpath+".partial")
 					if err == nil {
-- 
2.43.0


From 7bd49980a9a900c5afd8b4dab244bf731c1f97c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:19 +0000
Subject: [PATCH 54/82] fix: keep the binaries of different repository suffixes
 apart in the cache

---
 cran/download-package.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cran/download-package.go b/cran/download-package.go
index b72ae39..35f23d4 100644
--- a/cran/download-package.go
+++ b/cran/download-package.go
@@ -80,7 +80,7 @@ func DownloadPackages(fs afero.Fs, ds []PkgDl, baseDir string, rv RVersion, noSe
 	rpm := getRepos(ds)
 	for _, r := range rpm {
 		urlHash := RepoURLHash(r)
-		for _, pt := range []string{"src", filepath.Join("binary", rv.ToString())} {
+		for _, pt := range []string{"src", filepath.Join("binary", rv.ToString(), r.Suffix)} {
 			pkgdir := filepath.Join(baseDir, urlHash, pt)
 			err := fs.MkdirAll(pkgdir, 0777)
 			if err != nil {
@@ -117,7 +117,7 @@ func DownloadPackages(fs afero.Fs, ds []PkgDl, baseDir string, rv RVersion, noSe
 			pkgdir := filepath.Join(baseDir, urlHash, pkgType)
 			var pkgFile string
 			if d.Config.Type == Binary {
-				pkgFile = filepath.Join(pkgdir, rv.ToString(), binaryName(d.Package.Package, d.Package.Version))
+				pkgFile = filepath.Join(pkgdir, rv.ToString(), d.Config.Repo.Suffix, binaryName(d.Package.Package, d.Package.Version))
 			} else {
 				pkgFile = filepath.Join(pkgdir, fmt.Sprintf("%s_%s.tar.gz", d.Package.Package, d.Package.Version))
 			}
-- 
2.43.0


From aae5955f0e76b8935df7f425a6abd478a9945a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:02 +0000
Subject: [PATCH 55/82] fix: write the log of every command to the configured
 log file

plan, load, run, clean cache and clean pkgdbs ignored Logging: all.
---
 cmd/cleanCache.go | 4 +++-
 cmd/cleanPkgdb.go | 2 ++
 cmd/load.go       | 2 ++
 cmd/plan.go       | 4 ++++
 cmd/run.go        | 3 +++
 5 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/cmd/cleanCache.go b/cmd/cleanCache.go
index fbf57b6..32e6751 100644
--- a/cmd/cleanCache.go
+++ b/cmd/cleanCache.go
@@ -23,11 +23,12 @@ import (
 	"github.com/spf13/afero"
 
 	"github.com/dpastoor/goutils"
+	"github.com/metrumresearchgroup/pkgr/logger"
 	log "github.com/sirupsen/logrus"
 	"github.com/spf13/cobra"
 )
 
-//var cleanAllFromCache bool
+// var cleanAllFromCache bool
 var srcOnly bool
 var binariesOnly bool
 var reposToClear string
@@ -61,6 +62,7 @@ func init() {
 }
 
 func cache(cmd *cobra.Command, args []string) error {
+	logger.AddLogFile(cfg.Logging.All, cfg.Logging.Overwrite)
 	return cleanCacheFolders()
 }
 
diff --git a/cmd/cleanPkgdb.go b/cmd/cleanPkgdb.go
index 09a5124..b444078 100644
--- a/cmd/cleanPkgdb.go
+++ b/cmd/cleanPkgdb.go
@@ -18,6 +18,7 @@ import (
 	"strings"
 
 	"github.com/metrumresearchgroup/pkgr/configlib"
+	"github.com/metrumresearchgroup/pkgr/logger"
 
 	"github.com/metrumresearchgroup/pkgr/rcmd"
 	log "github.com/sirupsen/logrus"
@@ -48,6 +49,7 @@ func init() {
 // Using a "middle man" function here allows us to call the cleanPackageDatabases function from the "clean"
 // command when "pkgr clean --all" is run. Without the middle man, passing in arguments becomes strange.
 func executeCommand(cmd *cobra.Command, args []string) error {
+	logger.AddLogFile(cfg.Logging.All, cfg.Logging.Overwrite)
 	return cleanPackageDatabases(pkgdbsToClearArgument)
 }
 
diff --git a/cmd/load.go b/cmd/load.go
index a95c497..0c7b70a 100644
--- a/cmd/load.go
+++ b/cmd/load.go
@@ -37,6 +37,8 @@ loaded from the expected library.`,
   # Load the above packages and all their dependencies
   pkgr load --json --all`,
 	Run: func(cmd *cobra.Command, args []string) {
+		logger.AddLogFile(cfg.Logging.All, cfg.Logging.Overwrite)
+
 		all := viper.GetBool("all")
 		json := viper.GetBool("json")
 
diff --git a/cmd/plan.go b/cmd/plan.go
index 9de453d..ff54438 100644
--- a/cmd/plan.go
+++ b/cmd/plan.go
@@ -22,6 +22,7 @@ import (
 	"github.com/spf13/afero"
 	"github.com/thoas/go-funk"
 
+	"github.com/metrumresearchgroup/pkgr/logger"
 	"github.com/metrumresearchgroup/pkgr/rollback"
 
 	"github.com/metrumresearchgroup/pkgr/desc"
@@ -65,6 +66,9 @@ func init() {
 }
 
 func plan(cmd *cobra.Command, args []string) error {
+
+	logger.AddLogFile(cfg.Logging.All, cfg.Logging.Overwrite)
+
 	log.Infof("Installation would launch %v workers\n", getWorkerCount(cfg.Threads, runtime.GOMAXPROCS(0)))
 	rs := rcmd.NewRSettings(cfg.RPath)
 	rVersion := rcmd.GetRVersion(&rs)
diff --git a/cmd/run.go b/cmd/run.go
index af34d99..bc03101 100644
--- a/cmd/run.go
+++ b/cmd/run.go
@@ -16,6 +16,7 @@ package cmd
 
 import (
 	"github.com/metrumresearchgroup/pkgr/configlib"
+	"github.com/metrumresearchgroup/pkgr/logger"
 	"github.com/metrumresearchgroup/pkgr/rcmd"
 
 	"github.com/spf13/cobra"
@@ -53,6 +54,8 @@ configuration file.
 
 func rRun(cmd *cobra.Command, args []string) error {
 
+	logger.AddLogFile(cfg.Logging.All, cfg.Logging.Overwrite)
+
 	rs := rcmd.NewRSettings(cfg.RPath)
 	// installation through binary doesn't do this exactly, but its pretty close
 	// at least for experimentation for now. If necessary can refactor out the
-- 
2.43.0


From 7ddae2a0ea21115212e951e1187de0390d780cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:16 +0000
Subject: [PATCH 56/82] fix: do not record every message twice when adding and
 installing a package

add --install opened the log file a second time, which with overwriting
also discarded what add had written to it.
---
 logger/logger.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/logger/logger.go b/logger/logger.go
index da5e38a..c695e7a 100644
--- a/logger/logger.go
+++ b/logger/logger.go
@@ -100,9 +100,12 @@ func SetLogLevel(level string) {
 	}
 }
 
+// logFiles are the files that are written to already
+var logFiles = make(map[string]bool)
+
 func AddLogFile(outputFile string, overwrite bool) {
 
-	if outputFile != "" {
+	if outputFile != "" && !logFiles[outputFile] {
 
 		var osFlag int
 
@@ -115,6 +118,7 @@ func AddLogFile(outputFile string, overwrite bool) {
 		fileHook, err := NewLogrusFileHook(outputFile, osFlag, 0666)
 		if err == nil {
 			log.AddHook(fileHook)
+			logFiles[outputFile] = true
 		}
 	}
 }
-- 
2.43.0


From 2627cf93c0fd9be7487be0f38748872e4dcab790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:45 +0000
Subject: [PATCH 57/82] fix: install tarballs after those they depend on

The order of individually listed packages was that of a map, so a package
could be installed before another listed one it depends on.
---
 cmd/install.go    | 39 ++++++++++++++++++++++++++++++++++++++-
 cmd/tarballOps.go |  7 ++++++-
 gpsr/structs.go   |  7 ++++---
 3 files changed, 48 insertions(+), 5 deletions(-)

diff --git a/cmd/install.go b/cmd/install.go
index 5def022..958fd4b 100644
--- a/cmd/install.go
+++ b/cmd/install.go
@@ -18,6 +18,7 @@ import (
 	"errors"
 	"path/filepath"
 	"runtime"
+	"sort"
 	"time"
 
 	"github.com/metrumresearchgroup/pkgr/gpsr"
@@ -202,7 +203,8 @@ func installAdditionalPackages(installPlan gpsr.InstallPlan, rSettings rcmd.RSet
 
 	var errorAggregator []error
 
-	for pkgName, additionalPkg := range installPlan.AdditionalPackageSources {
+	for _, pkgName := range orderAdditionalPackages(installPlan) {
+		additionalPkg := installPlan.AdditionalPackageSources[pkgName]
 
 		log.WithFields(log.Fields{
 			"package":    pkgName,
@@ -295,6 +297,41 @@ func installAdditionalPackages(installPlan gpsr.InstallPlan, rSettings rcmd.RSet
 	return nil
 }
 
+// orderAdditionalPackages lists the additional packages such that each comes after those it depends on,
+// be it directly or through other packages.
+func orderAdditionalPackages(installPlan gpsr.InstallPlan) []string {
+	var names []string
+	for name := range installPlan.AdditionalPackageSources {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+
+	var ordered []string
+	visited := make(map[string]bool)
+	var visit func(name string)
+	visit = func(name string) {
+		if visited[name] {
+			return
+		}
+		visited[name] = true
+		additionalPkg, isAdditional := installPlan.AdditionalPackageSources[name]
+		dependencies := additionalPkg.Dependencies
+		if !isAdditional {
+			dependencies = installPlan.DepDb[name]
+		}
+		for _, dependency := range dependencies {
+			visit(dependency)
+		}
+		if isAdditional {
+			ordered = append(ordered, name)
+		}
+	}
+	for _, name := range names {
+		visit(name)
+	}
+	return ordered
+}
+
 func initInstallLog() {
 	// Init install-specific log, if one has been set. This overwrites the default log.
 	if cfg.Logging.Install != "" {
diff --git a/cmd/tarballOps.go b/cmd/tarballOps.go
index eb38151..a7704fb 100644
--- a/cmd/tarballOps.go
+++ b/cmd/tarballOps.go
@@ -41,7 +41,12 @@ func unpackTarballs(fs afero.Fs, tarballs []string, cache string) ([]desc.Desc,
 			}).Fatal("error parsing DESCRIPTION file for tarball package")
 		}
 		descriptions = append(descriptions, desc)
-		untarredMap[desc.Package] = gpsr.AdditionalPkg{InstallPath: untarredFolder, OriginPath: tarballPath, Type: "tarball"}
+
+		var dependencies []string
+		for _, d := range desc.GetCombinedDependencies(false) {
+			dependencies = append(dependencies, d.Name)
+		}
+		untarredMap[desc.Package] = gpsr.AdditionalPkg{InstallPath: untarredFolder, OriginPath: tarballPath, Type: "tarball", Dependencies: dependencies}
 	}
 
 	return descriptions, untarredMap
diff --git a/gpsr/structs.go b/gpsr/structs.go
index ae38a7e..e7feb31 100644
--- a/gpsr/structs.go
+++ b/gpsr/structs.go
@@ -18,9 +18,10 @@ type InstallPlan struct {
 }
 
 type AdditionalPkg struct {
-	InstallPath string
-	OriginPath  string
-	Type        string
+	InstallPath  string
+	OriginPath   string
+	Type         string
+	Dependencies []string // names of the packages the package directly depends on
 }
 
 // PkgDeps contains which dependencies should be installed
-- 
2.43.0


From 694722e3ef5d0db47953e5cf08f0f255ab54e9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:11 +0000
Subject: [PATCH 58/82] fix: do not hang when thousands of packages become
 installable at once

The updater waited for the requester, that for a place in the work queue,
and the workers for the updater.
---
 rcmd/install.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index ca28d79..e8bf3bc 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -422,7 +422,13 @@ func InstallPackagePlan(
 	// however if it may be concurrently accessed should consider a syncmap implementation
 	installedPkgs := make(map[string]bool)
 	// if packages ID'd as ready to install signal so can push them only the queue
-	shouldInstall := make(chan string)
+	// room for all signals, as handling an update must not have to wait for the queue,
+	// whose workers wait for updates to be handled
+	signals := len(plan.StartingPackages)
+	for _, deps := range plan.DepDb {
+		signals += len(deps)
+	}
+	shouldInstall := make(chan string, signals)
 	anyFailed := false
 
 	packagesNeeded := plan.GetNumPackagesToInstall()
-- 
2.43.0


From 62755777287e8e65f40ea8b73951d3a20cb4935b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:10 +0000
Subject: [PATCH 59/82] fix: use the newest of several versions of a package a
 repository lists

---
 cran/repodb.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cran/repodb.go b/cran/repodb.go
index 1d00044..b1a6d6a 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -261,6 +261,10 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 				// as such, for now we'll just discard if its one of those until we can
 				// more comprehensively teach pkgr what it should do in such a situation
 				if packageValid && pkgDesc.Path == "" {
+					if other, listed := descriptionMap[pkgDesc.Package]; listed && desc.CompareVersionStrings(other.Version, pkgDesc.Version) > 0 {
+						// a newer version is listed as well
+						continue
+					}
 					descriptionMap[pkgDesc.Package] = pkgDesc
 				} else {
 					log.WithFields(log.Fields{
-- 
2.43.0


From 5e0e79f3bf49b0e8c313c6aa5e50e3e2e60e0a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:10 +0000
Subject: [PATCH 60/82] fix: create the cache directories of repositories that
 share their name

---
 cran/download-package.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cran/download-package.go b/cran/download-package.go
index 35f23d4..8048c95 100644
--- a/cran/download-package.go
+++ b/cran/download-package.go
@@ -59,10 +59,10 @@ const (
 	Binary
 )
 
-func getRepos(ds []PkgDl) map[string]RepoURL {
-	rpm := make(map[string]RepoURL)
+func getRepos(ds []PkgDl) map[RepoURL]RepoURL {
+	rpm := make(map[RepoURL]RepoURL)
 	for _, d := range ds {
-		rpm[d.Config.Repo.Name] = d.Config.Repo
+		rpm[d.Config.Repo] = d.Config.Repo
 	}
 	return rpm
 }
-- 
2.43.0


From 68ad507f653b29cc29a06ee5e393b720c90ced9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:10 +0000
Subject: [PATCH 61/82] fix: do not unset what another customization of the
 same package sets

---
 configlib/config.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/configlib/config.go b/configlib/config.go
index 4910920..dca7770 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -322,7 +322,12 @@ func SetPlanCustomizations(cfg PkgrConfig, dependencyConfigurations gpsr.Install
 	//if viper.Sub("Customizations") != nil && viper.Sub("Customizations").AllSettings()["packages"] != nil {
 	if len(cfg.Customizations.Packages) > 0 {
 		pkgSettings := viper.Sub("Customizations").AllSettings()["packages"].([]interface{})
-		setViperCustomizations(cfg, pkgSettings, dependencyConfigurations, pkgNexus)
+		for i := range cfg.Customizations.Packages {
+			// one entry at a time, as what is set in another entry for the same package is not set in this one
+			entry := cfg
+			entry.Customizations.Packages = cfg.Customizations.Packages[i : i+1]
+			setViperCustomizations(entry, pkgSettings[i:i+1], dependencyConfigurations, pkgNexus)
+		}
 	}
 }
 
-- 
2.43.0


From 4ff0ab1a4b633b170fdd9fbf4b07aa5396976dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:10 +0000
Subject: [PATCH 62/82] fix: use the whole major version of CentOS and RHEL in
 binary repository URLs

---
 cran/utils.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cran/utils.go b/cran/utils.go
index a9cc0d2..1bc6520 100644
--- a/cran/utils.go
+++ b/cran/utils.go
@@ -10,6 +10,7 @@ import (
 	"io/ioutil"
 	"regexp"
 	"runtime"
+	"strings"
 )
 
 type BinaryUriType int
@@ -129,9 +130,7 @@ func getLinuxBinaryUri() string {
 	// rstudio package manager seems confident just 7 vs 8 is sufficient as a default therefore will follow
 	// given the compat with redhat can normalize to centos
 	if osRelease.Id == "centos" || osRelease.Id == "rhel" {
-		// reminder that go indices on strings pull their byte representation, not the string value
-		// either coerce back to string or work with runes
-		version := string(osRelease.VersionId[0])
+		version := strings.SplitN(osRelease.VersionId, ".", 2)[0]
 		return fmt.Sprintf("centos/%s", version)
 	}
 
-- 
2.43.0


From c0a36c34aeee6646da93014a618cd4b925b620ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:10 +0000
Subject: [PATCH 63/82] fix: read os-release files with empty or single-quoted
 values

---
 cran/utils.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cran/utils.go b/cran/utils.go
index 1bc6520..cc4a750 100644
--- a/cran/utils.go
+++ b/cran/utils.go
@@ -177,9 +177,9 @@ func ReadOsRelease() error {
 		return err
 	}
 	log.WithField("config", string(configData)).Trace("got config data from /etc/os-release")
-	//Find all unquoted strings and quote them
-	re := regexp.MustCompile(`(.*?=)([^"].*)`)
-	fixedConfig := re.ReplaceAll(configData, []byte("${1}\"${2}\""))
+	//Quote all strings, which may be unquoted, in single quotes or empty
+	re := regexp.MustCompile(`(?m)^(\w+=)(?:"(.*)"|'(.*)'|(.*?))[ \t\r]*$`)
+	fixedConfig := re.ReplaceAll(configData, []byte("${1}\"${2}${3}${4}\""))
 
 	//Let viper map it in otherwise it defaults to yaml
 	//Don't pollute the global viper instance or we'll segfault later trying to read pkgr.yml
-- 
2.43.0


From 12ee0068752b64232db9492c189e809724d1be54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:29 +0000
Subject: [PATCH 64/82] fix: accept package customizations that set nothing

---
 configlib/config.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/configlib/config.go b/configlib/config.go
index dca7770..532a41f 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -229,9 +229,12 @@ func loadDefaultSettings() {
 // IsCustomizationSet ...
 func IsCustomizationSet(key string, elems []interface{}, elem string) bool {
 	for _, v := range elems {
-		for k, iv := range v.(map[interface{}]interface{}) {
+		// nil if there is nothing in it
+		customizations, _ := v.(map[interface{}]interface{})
+		for k, iv := range customizations {
 			if k == elem {
-				for k2 := range iv.(map[interface{}]interface{}) {
+				settings, _ := iv.(map[interface{}]interface{})
+				for k2 := range settings {
 					if k2 == key {
 						return true
 					}
-- 
2.43.0


From 53d56bf686316bfcfa47dc6733b9f147b31c36ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:08 +0000
Subject: [PATCH 65/82] fix: let instances that share a cache fetch and build
 the same packages at once

---
 cmd/tarballOps.go        | 9 +++++++--
 cran/download-package.go | 5 +++--
 rcmd/install.go          | 8 +++++---
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/cmd/tarballOps.go b/cmd/tarballOps.go
index a7704fb..1956887 100644
--- a/cmd/tarballOps.go
+++ b/cmd/tarballOps.go
@@ -3,6 +3,7 @@ package cmd
 import (
 	"crypto/md5"
 	"encoding/hex"
+	"fmt"
 	"github.com/metrumresearchgroup/pkgr/desc"
 	"github.com/metrumresearchgroup/pkgr/gpsr"
 	"github.com/metrumresearchgroup/pkgr/internal/archive"
@@ -11,6 +12,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"time"
 )
 
 func unpackTarballs(fs afero.Fs, tarballs []string, cache string) ([]desc.Desc, map[string]gpsr.AdditionalPkg) {
@@ -89,14 +91,17 @@ func untar(fs afero.Fs, path string, cacheDir string) string {
 			"source_tarball": path,
 		}).Debug("using cached tarball.")
 	} else {
-		// an existing directory is taken to be complete, so it only gets there once it is
-		partialPath := tarballDirectoryPath + ".partial"
+		// an existing directory is taken to be complete, so it only gets there once it is;
+		// other instances of pkgr may share the cache, and get it there first
+		partialPath := fmt.Sprintf("%s.%d-%d.partial", tarballDirectoryPath, os.Getpid(), time.Now().UnixNano())
 		err = archive.Extract(path, partialPath)
 		if err == nil {
 			err = fs.Rename(partialPath, tarballDirectoryPath)
 		}
 		if err != nil {
 			_ = fs.RemoveAll(partialPath)
+		}
+		if found, _ := afero.DirExists(fs, tarballDirectoryPath); err != nil && !found {
 			logrus.WithFields(logrus.Fields{
 				"path": path,
 			}).Fatalf("error while unarchiving tarball: %s", err)
diff --git a/cran/download-package.go b/cran/download-package.go
index 8048c95..683cec5 100644
--- a/cran/download-package.go
+++ b/cran/download-package.go
@@ -237,8 +237,9 @@ func DownloadPackage(fs afero.Fs, d PkgDl, dest string, rv RVersion, noSecure bo
 		defer from.Close()
 	}
 
-	// a file at dest is taken to be complete, so it only gets there once it is
-	partial := dest + ".partial"
+	// a file at dest is taken to be complete, so it only gets there once it is;
+	// other instances of pkgr may share the cache, and be downloading it as well
+	partial := fmt.Sprintf("%s.%d-%d.partial", dest, os.Getpid(), time.Now().UnixNano())
 	file, err := fs.Create(partial)
 	if err != nil {
 		log.WithFields(log.Fields{
diff --git a/rcmd/install.go b/rcmd/install.go
index e8bf3bc..b388351 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -496,10 +496,12 @@ func InstallPackagePlan(
 						filepath.Base(iu.BinaryPath),
 					)
 					os.MkdirAll(filepath.Dir(bpath), 0777)
-					// a file at bpath is taken to be complete, so it only gets there once it is
-					_, err := goutils.Copy(iu.BinaryPath, bpath+".partial")
+					// a file at bpath is taken to be complete, so it only gets there once it is;
+					// other instances of pkgr may share the cache, and be copying theirs as well
+					partial := fmt.Sprintf("%s.%d-%d.partial", bpath, os.Getpid(), time.Now().UnixNano())
+					_, err := goutils.Copy(iu.BinaryPath, partial)
 					if err == nil {
-						err = os.Rename(bpath+".partial", bpath)
+						err = os.Rename(partial, bpath)
 					}
 					log.WithFields(log.Fields{"from": iu.BinaryPath, "to": bpath}).Trace("copied binary")
 					if err != nil {
-- 
2.43.0


From b83d453a8f9a91070599c5ba2505419bc277e776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:15 +0000
Subject: [PATCH 66/82] fix: stop when the library cannot be read, instead of
 taking it for empty

---
 cmd/plan.go     |  2 +-
 pacman/utils.go | 10 +++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/plan.go b/cmd/plan.go
index ff54438..1741e18 100644
--- a/cmd/plan.go
+++ b/cmd/plan.go
@@ -94,7 +94,7 @@ func planInstall(rv cran.RVersion, exitOnMissing bool) (*cran.PkgNexus, gpsr.Ins
 		log.WithFields(log.Fields{
 			"library": cfg.Library,
 			"error":   err,
-		}).Error("unexpected error when checking existence of library")
+		}).Fatal("unexpected error when checking existence of library")
 	}
 
 	if !libraryExists && cfg.Strict {
diff --git a/pacman/utils.go b/pacman/utils.go
index a287f8e..da3173b 100644
--- a/pacman/utils.go
+++ b/pacman/utils.go
@@ -3,6 +3,7 @@ package pacman
 import (
 	"errors"
 	"fmt"
+	"os"
 	"path/filepath"
 	"strings"
 
@@ -19,13 +20,20 @@ func GetPriorInstalledPackages(fileSystem afero.Fs, libraryPath string) map[stri
 	installed := make(map[string]desc.Desc)
 	installedLibrary, err := fileSystem.Open(libraryPath)
 
+	if err != nil && !os.IsNotExist(err) {
+		log.WithField("libraryPath", libraryPath).Fatalf("could not open package library: %s", err)
+	}
 	if err != nil {
 		log.WithField("libraryPath", libraryPath).Warn("package library not found at given library path")
 		return installed
 	}
 	defer installedLibrary.Close()
 
-	fileInfo, _ := installedLibrary.Readdir(0)
+	fileInfo, err := installedLibrary.Readdir(0)
+	if err != nil {
+		// what is not seen would be taken for not installed, and not be backed up
+		log.WithField("libraryPath", libraryPath).Fatalf("could not read package library: %s", err)
+	}
 	installedPackageFolders := goutils.ListDirNames(fileInfo)
 
 	for _, pkgFolder := range installedPackageFolders {
-- 
2.43.0


From 17892cc6153ad594aaecfaccfba109e58e01055a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:15 +0000
Subject: [PATCH 67/82] fix: report backups that could not be removed

---
 cmd/install.go         |  5 +++--
 rollback/operations.go | 10 ++++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/cmd/install.go b/cmd/install.go
index 958fd4b..ea8b3cb 100644
--- a/cmd/install.go
+++ b/cmd/install.go
@@ -167,9 +167,10 @@ func rInstall(cmd *cobra.Command, args []string) error {
 		}
 	}
 	// If any packages were being updated, we need to remove any leftover backup folders that were created.
-	// Errors are handled in the lower functions
 	if errRollback == nil {
-		_ = rollbackPlan.DeleteBackupPackageFolders(fs)
+		if errDelete := rollbackPlan.DeleteBackupPackageFolders(fs); errDelete != nil {
+			log.WithField("error", errDelete).Error("could not remove the backups of the updated packages")
+		}
 	}
 
 	log.Info("duration:", time.Since(startTime))
diff --git a/rollback/operations.go b/rollback/operations.go
index 36aab5e..3d169c0 100644
--- a/rollback/operations.go
+++ b/rollback/operations.go
@@ -75,8 +75,14 @@ func DeleteBackupPackageFolders(fileSystem afero.Fs, packageBackupInfo []UpdateA
 
 	for _, info := range packageBackupInfo {
 
-		backupExists, _ := afero.Exists(fileSystem, info.BackupPackageDirectory)
-		activeExists, _ := afero.Exists(fileSystem, info.ActivePackageDirectory)
+		backupExists, err0 := afero.Exists(fileSystem, info.BackupPackageDirectory)
+		if err0 != nil {
+			return err0
+		}
+		activeExists, err0 := afero.Exists(fileSystem, info.ActivePackageDirectory)
+		if err0 != nil {
+			return err0
+		}
 		if backupExists && !activeExists {
 			// nothing took its place, so it is all there is
 			err1 := fileSystem.Rename(info.BackupPackageDirectory, info.ActivePackageDirectory)
-- 
2.43.0


From 7d7832a9a1b98f7bf1349ee5db2f3d1e58af7d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:36 +0000
Subject: [PATCH 68/82] fix: take a package whose DESCRIPTION cannot be read
 for installed, so that it is backed up

---
 pacman/utils.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pacman/utils.go b/pacman/utils.go
index da3173b..7e03395 100644
--- a/pacman/utils.go
+++ b/pacman/utils.go
@@ -46,6 +46,10 @@ func GetPriorInstalledPackages(fileSystem afero.Fs, libraryPath string) map[stri
 
 		if err != nil {
 			log.Error(err)
+			if unreadable(err) {
+				// it is there, at whatever version
+				installed[pkgFolder] = desc.Desc{Package: pkgFolder}
+			}
 			err = nil
 		} else {
 			log.WithFields(log.Fields{
@@ -98,6 +102,12 @@ func GetPackagesByInstalledFrom(fileSystem afero.Fs, libraryPath string) Install
 	}
 }
 
+// unreadable tells that a file that exists could not be read
+func unreadable(err error) bool {
+	var pathError *os.PathError
+	return errors.As(err, &pathError) && !os.IsNotExist(err)
+}
+
 func scanInstalledPackage(
 	descriptionFilePath string, fileSystem afero.Fs) (desc.Desc, error) {
 
@@ -112,6 +122,9 @@ func scanInstalledPackage(
 	log.WithField("description_file", descriptionFilePath).Trace("scanning DESCRIPTION file")
 
 	installedPackage, err := desc.ParseDesc(descriptionFile)
+	if unreadable(err) {
+		return desc.Desc{}, err
+	}
 
 	if installedPackage.Package == "" {
 		err = errors.New(fmt.Sprintf("encountered a description file without package name: %s", descriptionFile))
-- 
2.43.0


From c1d2bee2bf20b658aaa95c0f9446d7a7ee9f0a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:36 +0000
Subject: [PATCH 69/82] fix: do not install a package when it cannot be told
 whether it is installed

---
 rcmd/install.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index b388351..d0995c9 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -277,7 +277,13 @@ func InstallThroughBinary(
 	ir InstallRequest,
 	pc PackageCache) (CmdResult, string, error) {
 	// a directory without DESCRIPTION is what an interrupted removal leaves
-	exists, _ := goutils.Exists(fs, filepath.Join(ir.InstallArgs.Library, ir.Package, "DESCRIPTION"))
+	exists, err := goutils.Exists(fs, filepath.Join(ir.InstallArgs.Library, ir.Package, "DESCRIPTION"))
+	if err != nil {
+		return CmdResult{
+			ExitCode: 1,
+			Stderr:   fmt.Sprintf("could not tell whether %s is installed: %s", ir.Package, err),
+		}, "", err
+	}
 	if exists {
 		log.WithFields(log.Fields{
 			"package": ir.Package,
@@ -308,7 +314,7 @@ func InstallThroughBinary(
 		os.TempDir(),
 		randomString(12),
 	)
-	err := fs.MkdirAll(tmpdir, 0777)
+	err = fs.MkdirAll(tmpdir, 0777)
 	if err != nil {
 		log.Fatalf("could not make tmpdir at: %s to install package", tmpdir)
 	}
-- 
2.43.0


From df868fdb7c6b7a524ab46b3f868a0cf9d4500576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:36 +0000
Subject: [PATCH 70/82] fix: do not take a backup that cannot be examined for
 missing

---
 rollback/operations.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rollback/operations.go b/rollback/operations.go
index 3d169c0..f39c446 100644
--- a/rollback/operations.go
+++ b/rollback/operations.go
@@ -122,7 +122,10 @@ func rollbackChangedPackages(fileSystem afero.Fs, packageBackupInfo []UpdateAtte
 			"failed_to_update_to": info.NewVersion,
 		}).Warn("did not update package, restoring last-installed version")
 
-		backupExists, _ := afero.Exists(fileSystem, info.BackupPackageDirectory)
+		backupExists, err0 := afero.Exists(fileSystem, info.BackupPackageDirectory)
+		if err0 != nil {
+			return err0
+		}
 		if !backupExists {
 			// never removed, so what is there is all there is
 			continue
-- 
2.43.0


From 503bce5056f55a931ead0f69ccc522cdba9e0608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:07 +0000
Subject: [PATCH 71/82] fix: database caches get the usual permissions

---
 cran/repodb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cran/repodb.go b/cran/repodb.go
index b1a6d6a..fb99475 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -70,7 +70,7 @@ func (repoDb *RepoDb) Encode(file string) error {
 		return err
 	}
 	// a database at file is taken to be complete, so it only gets there once it is
-	f, err := ioutil.TempFile(filepath.Dir(file), "partial")
+	f, err := os.Create(fmt.Sprintf("%s.%d-%d.partial", file, os.Getpid(), time.Now().UnixNano()))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 7dd016b2696088d5b0e125f196ad54d7db8c1423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:50 +0000
Subject: [PATCH 72/82] fix: never lose the configuration when adding or
 removing a package is interrupted

---
 configlib/add_package.go | 46 +++++++++++++++++++++++++++++++++++++++-
 configlib/config.go      | 10 +--------
 2 files changed, 46 insertions(+), 10 deletions(-)

diff --git a/configlib/add_package.go b/configlib/add_package.go
index 77df05e..825f421 100644
--- a/configlib/add_package.go
+++ b/configlib/add_package.go
@@ -8,6 +8,8 @@ import (
 	"github.com/spf13/viper"
 	"github.com/thoas/go-funk"
 	"gopkg.in/yaml.v3"
+	"os"
+	"path/filepath"
 	"reflect"
 	"strings"
 )
@@ -43,7 +45,49 @@ func AddPackages(pkgs []string) error {
 	if err = checkEdit(yf, newYml, pkgsToInstall, nil); err != nil {
 		return fmt.Errorf("could not add packages to %s, please add them manually: %s", ymlfile, err)
 	}
-	return afero.WriteFile(appFS, ymlfile, newYml, 0666)
+	return writeConfig(appFS, ymlfile, newYml)
+}
+
+// writeConfig replaces the contents of an existing config file, all at once: whatever goes wrong,
+// the file is left as it was
+func writeConfig(appFS afero.Fs, ymlfile string, contents []byte) error {
+	// a link stays one
+	ymlfile, err := filepath.EvalSymlinks(ymlfile)
+	if err != nil {
+		return err
+	}
+	// replacing a file does not require that it can be written
+	f, err := appFS.OpenFile(ymlfile, os.O_WRONLY, 0)
+	if err != nil {
+		return err
+	}
+	fi, err := f.Stat()
+	f.Close()
+	if err != nil {
+		return err
+	}
+	partial, err := afero.TempFile(appFS, filepath.Dir(ymlfile), ".pkgr-partial")
+	if os.IsPermission(err) {
+		// no file can be created next to it
+		return afero.WriteFile(appFS, ymlfile, contents, fi.Mode())
+	}
+	if err != nil {
+		return err
+	}
+	_, err = partial.Write(contents)
+	if err1 := partial.Close(); err == nil {
+		err = err1
+	}
+	if err == nil {
+		err = appFS.Chmod(partial.Name(), fi.Mode())
+	}
+	if err == nil {
+		err = appFS.Rename(partial.Name(), ymlfile)
+	}
+	if err != nil {
+		_ = appFS.Remove(partial.Name())
+	}
+	return err
 }
 
 // checkEdit verifies that the only difference in meaning between two versions of a config file
diff --git a/configlib/config.go b/configlib/config.go
index 532a41f..5d83597 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -262,10 +262,6 @@ func remove(ymlfile string, packageName string) error {
 	if err != nil {
 		return err
 	}
-	fi, err := os.Stat(ymlfile)
-	if err != nil {
-		return err
-	}
 	var doc yaml.Node
 	if err = yaml.Unmarshal(yf, &doc); err != nil {
 		return err
@@ -297,11 +293,7 @@ func remove(ymlfile string, packageName string) error {
 	if len(drop) == 0 {
 		return nil
 	}
-	err = afero.WriteFile(appFS, ymlfile, out, fi.Mode())
-	if err != nil {
-		return err
-	}
-	return nil
+	return writeConfig(appFS, ymlfile, out)
 }
 
 // SetCustomizations ... set ENV values in Rsettings
-- 
2.43.0


From f192faf57ddf1727c3a2c2485c303ebbf85a989d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:51 +0000
Subject: [PATCH 73/82] fix: remove unpacked tarballs all at once, and report a
 cache that cannot be read

---
 cmd/cleanCache.go | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/cmd/cleanCache.go b/cmd/cleanCache.go
index 32e6751..6688443 100644
--- a/cmd/cleanCache.go
+++ b/cmd/cleanCache.go
@@ -16,9 +16,12 @@ package cmd
 
 import (
 	"errors"
+	"fmt"
+	"os"
 	"path/filepath"
 	"strconv"
 	"strings"
+	"time"
 
 	"github.com/spf13/afero"
 
@@ -99,7 +102,13 @@ func cleanCacheFolders() error {
 		return errors.New("'what? that's impossible! my logic is flawless!'")
 	}
 
-	// Clear the tarballs
+	cleanUnpackedTarballs(cachePath)
+
+	return nil
+}
+
+// cleanUnpackedTarballs removes what the tarballs of the config were unpacked to
+func cleanUnpackedTarballs(cachePath string) {
 	log.Info("clearing unpacked tarballs from the cache")
 	for _, tgzFile := range cfg.Tarballs {
 		openedTgz, err := fs.Open(tgzFile)
@@ -114,7 +123,15 @@ func cleanCacheFolders() error {
 			continue
 		}
 		openedTgz.Close()
-		err = fs.RemoveAll(filepath.Join(cachePath, hashedDirectoryName))
+		// an existing directory is taken to be complete, so it does not stay there while it is removed
+		tarballDirectoryPath := filepath.Join(cachePath, hashedDirectoryName)
+		removedPath := fmt.Sprintf("%s.%d-%d.partial", tarballDirectoryPath, os.Getpid(), time.Now().UnixNano())
+		err = fs.Rename(tarballDirectoryPath, removedPath)
+		if err == nil {
+			err = fs.RemoveAll(removedPath)
+		} else if os.IsNotExist(err) {
+			err = nil
+		}
 		if err != nil {
 			log.WithFields(log.Fields{
 				"file":  tgzFile,
@@ -123,8 +140,6 @@ func cleanCacheFolders() error {
 		}
 
 	}
-
-	return nil
 }
 
 func deleteAllCacheSubfolders(fs afero.Fs, repos []string, cacheDirectory string) {
@@ -138,12 +153,19 @@ func deleteCacheSubfolders(fs afero.Fs, repos []string, subfolder string, cacheD
 	//Filesystem object for the cache directory
 	cacheDirFsObject, err := fs.Open(cacheDirectory)
 	if err != nil {
+		if !os.IsNotExist(err) {
+			log.WithField("error", err).Error("could not open cache")
+		}
 		return err
 	}
 	defer cacheDirFsObject.Close()
 
 	//File info object, I guess I needed this
-	cacheDirObject, _ := cacheDirFsObject.Readdir(0)
+	cacheDirObject, err := cacheDirFsObject.Readdir(0)
+	if err != nil {
+		log.WithField("error", err).Error("could not read cache")
+		return err
+	}
 	repoFolderNames := goutils.ListDirNames(cacheDirObject)
 
 	if repos == nil || len(repos) == 0 {
-- 
2.43.0


From ad78002fce68eaef2752d461dca1ca05a4adc2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:52 +0000
Subject: [PATCH 74/82] fix: leave no unpacked tarballs in the cache after
 clean --all

---
 cmd/clean.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/clean.go b/cmd/clean.go
index 9ac98ff..a54ad6b 100644
--- a/cmd/clean.go
+++ b/cmd/clean.go
@@ -71,6 +71,8 @@ func clean(cmd *cobra.Command, args []string) error {
 		if err != nil {
 			return err
 		}
+		// finding the databases unpacked them again
+		cleanUnpackedTarballs(userCache(cfg.Cache))
 	}
 	return nil
 }
-- 
2.43.0


From 8182dc5ffd93d460a3bd7224a5cff388977fe561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:46 +0000
Subject: [PATCH 75/82] fix: accept extra blank lines in package lists

---
 cran/repodb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cran/repodb.go b/cran/repodb.go
index fb99475..fd17635 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -237,7 +237,7 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 				"num_pkgs": len(parsedPackagesFile),
 			}).Debug("potential packages")
 			for _, pkg := range parsedPackagesFile {
-				if len(pkg) == 0 {
+				if len(bytes.TrimSpace(pkg)) == 0 {
 					// end of file might have double spaces
 					// and thus will be one split, so want
 					// to skip that
-- 
2.43.0


From 21790f9754b1cdf6f677fee9b235caeea8eaaff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:46 +0000
Subject: [PATCH 76/82] fix: accept lists of dependencies that end with a comma

---
 desc/desc.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/desc/desc.go b/desc/desc.go
index 1c2607c..3c9324f 100644
--- a/desc/desc.go
+++ b/desc/desc.go
@@ -76,12 +76,20 @@ func NewDesc(d desc) Desc {
 	if len(d.Imports) > 0 {
 		for _, dp := range d.Imports {
 			dep := ParseDep(dp)
+			if dep.Name == "" {
+				// after a trailing comma
+				continue
+			}
 			dsc.Imports[dep.Name] = dep
 		}
 	}
 	if len(d.Suggests) > 0 {
 		for _, dp := range d.Suggests {
 			dep := ParseDep(dp)
+			if dep.Name == "" {
+				// after a trailing comma
+				continue
+			}
 			dsc.Suggests[dep.Name] = dep
 		}
 
@@ -89,6 +97,10 @@ func NewDesc(d desc) Desc {
 	if len(d.Depends) > 0 {
 		for _, dp := range d.Depends {
 			dep := ParseDep(dp)
+			if dep.Name == "" {
+				// after a trailing comma
+				continue
+			}
 			if other, again := dsc.Depends[dep.Name]; again && dep.Name == "R" {
 				dsc.OtherR = append(dsc.OtherR, other)
 			}
@@ -98,6 +110,10 @@ func NewDesc(d desc) Desc {
 	if len(d.LinkingTo) > 0 {
 		for _, dp := range d.LinkingTo {
 			dep := ParseDep(dp)
+			if dep.Name == "" {
+				// after a trailing comma
+				continue
+			}
 			dsc.LinkingTo[dep.Name] = dep
 		}
 	}
-- 
2.43.0


From f5063a61d717235d9124466a4f0eb7bd2b0c3f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:15 +0000
Subject: [PATCH 77/82] fix: several customizations of one package combine
 their environment variables

---
 configlib/config.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/configlib/config.go b/configlib/config.go
index 5d83597..d2dc518 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -302,7 +302,15 @@ func SetCustomizations(rSettings rcmd.RSettings, cfg PkgrConfig) rcmd.RSettings
 	for _, pkgCustomizations := range pkgCustomizationsSlice {
 		for n, v := range pkgCustomizations {
 			if v.Env != nil {
-				rSettings.PkgEnvVars[n] = v.Env
+				// there may be several customizations of one package
+				env := make(map[string]string)
+				for name, value := range rSettings.PkgEnvVars[n] {
+					env[name] = value
+				}
+				for name, value := range v.Env {
+					env[name] = value
+				}
+				rSettings.PkgEnvVars[n] = env
 			}
 		}
 	}
-- 
2.43.0


From dcd923408270acf87690b6c9cb342b24f3ffd433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:43 +0000
Subject: [PATCH 78/82] fix: take ".." in the library path as R does

---
 configlib/config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/configlib/config.go b/configlib/config.go
index d2dc518..20760f7 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -60,6 +60,10 @@ func NewConfig(cfgPath string, cfg *PkgrConfig) {
 
 	// For all cfg	values that can be repos, make sure that ~ is expanded to the home directory.
 	cfg.Library = expandTilde(cfg.Library)
+	if len(cfg.Library) > 0 {
+		// as R gets it: what ".." stands for does not depend on what the path goes through
+		cfg.Library = filepath.Clean(cfg.Library)
+	}
 	cfg.Tarballs = expandTildes(cfg.Tarballs)
 	cfg.Descriptions = expandTildes(cfg.Descriptions)
 	cfg.Repos = expandTildesRepos(cfg.Repos)
-- 
2.43.0


From 471b0dcdd708e50dbaa3c6ef163605251c93f10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:20 +0000
Subject: [PATCH 79/82] fix: take lines of only spaces in a package list as
 empty

---
 cran/repodb.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cran/repodb.go b/cran/repodb.go
index fd17635..0ec5174 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -11,6 +11,7 @@ import (
 	"net/http"
 	"os"
 	"path/filepath"
+	"regexp"
 	"runtime"
 	"strconv"
 	"strings"
@@ -21,6 +22,8 @@ import (
 	log "github.com/sirupsen/logrus"
 )
 
+var blankLine = regexp.MustCompile(`(?m)^[ \t]+$`)
+
 // NewRepoDb returns a new Repo database
 // noSecure will allow https fetching without validating the certificate chain.
 // This occasionally is needed for repos that have self signed or certs not fully verifiable
@@ -231,6 +234,8 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 			}
 			// cran windows PACKAGES file can have windows carriage returns, lets normalize
 			body = bytes.ReplaceAll(body, []byte("\r\n"), []byte("\n"))
+			// to R, lines of only spaces and tabs separate entries as empty lines do
+			body = blankLine.ReplaceAll(body, nil)
 			parsedPackagesFile := bytes.Split(body, []byte("\n\n"))
 			log.WithFields(log.Fields{
 				"url":      pkgURL,
-- 
2.43.0


From 739698177bea6339bf6588469887a91e16ccb401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:11 +0000
Subject: [PATCH 80/82] fix: several customizations of one repository combine

---
 cmd/plan.go                    |  7 +++++--
 configlib/get_customization.go | 18 +++++++++++++++---
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/cmd/plan.go b/cmd/plan.go
index 1741e18..69817b4 100644
--- a/cmd/plan.go
+++ b/cmd/plan.go
@@ -140,10 +140,13 @@ func planInstall(rv cran.RVersion, exitOnMissing bool) (*cran.PkgNexus, gpsr.Ins
 	cic := cran.NewInstallConfig()
 	for _, repoSlice := range cfg.Customizations.Repos {
 		for rn, val := range repoSlice {
-			rc := cran.RepoConfig{}
+			// a repo may have several entries, which add up
+			rc := cic.Repos[rn]
 			if strings.EqualFold(val.RepoType, "MPN") {
 				rc.RepoType = cran.MPN
-				rc.DefaultSourceType = cran.Binary
+				if rc.DefaultSourceType == cran.Default {
+					rc.DefaultSourceType = cran.Binary
+				}
 			}
 			if strings.EqualFold(val.RepoType, "RSPM") {
 				rc.RepoType = cran.RSPM
diff --git a/configlib/get_customization.go b/configlib/get_customization.go
index f191fc2..2c55b66 100644
--- a/configlib/get_customization.go
+++ b/configlib/get_customization.go
@@ -4,14 +4,26 @@ package configlib
 // as whether it exists. This is helpful given the customization config of array of maps
 // makes it more annoying than it should be to get one.
 func GetRepoCustomizationByName(nm string, c Customizations) (RepoConfig, bool){
+	var rv RepoConfig
+	exists := false
 	for _, rc := range c.Repos {
-		rv, ok := rc[nm]
+		entry, ok := rc[nm]
 		if !ok {
 			continue
 		}
-		return rv, true
+		// there may be several, which add up
+		exists = true
+		if entry.Type != "" {
+			rv.Type = entry.Type
+		}
+		if entry.RepoType != "" {
+			rv.RepoType = entry.RepoType
+		}
+		if entry.RepoSuffix != "" {
+			rv.RepoSuffix = entry.RepoSuffix
+		}
 	}
-	return RepoConfig{}, false
+	return rv, exists
 }
 
 // GetPackageCustomizationByName will return a Package customization by name as well
-- 
2.43.0


From d2299de30b3617e3534697db77d44edddd20c7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:11 +0000
Subject: [PATCH 81/82] fix: run takes the variables of every customization of
 the package

---
 cmd/run.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/cmd/run.go b/cmd/run.go
index bc03101..25d6e9e 100644
--- a/cmd/run.go
+++ b/cmd/run.go
@@ -61,10 +61,7 @@ func rRun(cmd *cobra.Command, args []string) error {
 	// at least for experimentation for now. If necessary can refactor out the
 	// specifics so could be run here exactly.
 	rs.LibPaths = append(rs.LibPaths, cfg.Library)
-	pc, exists := configlib.GetPackageCustomizationByName(pkg, cfg.Customizations)
-	if exists {
-		rs.PkgEnvVars[pkg] = pc.Env
-	}
+	rs = configlib.SetCustomizations(rs, cfg)
 	rcmd.StartR(fs, pkg, rs, "")
 	return nil
 }
-- 
2.43.0


From 719d67030af3c1623ddd0f082c4618850c7edec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:29 +0000
Subject: [PATCH 82/82] fix: load reports the search path and the packages of R
 however R prints them

---
 cmd/load.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/cmd/load.go b/cmd/load.go
index 0c7b70a..8f5b6e2 100644
--- a/cmd/load.go
+++ b/cmd/load.go
@@ -174,7 +174,11 @@ func getRSessionMetadata(rs rcmd.RSettings, rDir string) RSessionMetadata {
 // Get the libPaths that will load for an R session launched in rDir.
 func getRSessionLibPaths(rs rcmd.RSettings, rDir string) []string {
 	log.Trace("attempting to get session lib paths")
-	outLines, errLines, cmdErr := runRCmd(".libPaths()", rs, rDir, true)
+	// R prints several elements of a vector on one line, and startup files may
+	// print lines of their own: print each path on a line that can be told.
+	const marker = "_pkgr_"
+	outLines, errLines, cmdErr := runRCmd(
+		fmt.Sprintf("for (p in .libPaths()) print(paste0('%s', p, '%s'))", marker, marker), rs, rDir, true)
 
 	if cmdErr != nil || len(errLines) > 0 {
 		log.WithFields(log.Fields{
@@ -186,7 +190,10 @@ func getRSessionLibPaths(rs rcmd.RSettings, rDir string) []string {
 	}
 	var trimmedOutLines []string
 	for _, line := range outLines {
-		trimmedOutLines = append(trimmedOutLines, strings.ReplaceAll(line, "\"", ""))
+		line = strings.ReplaceAll(line, "\"", "")
+		if len(line) > 2*len(marker) && strings.HasPrefix(line, marker) && strings.HasSuffix(line, marker) {
+			trimmedOutLines = append(trimmedOutLines, line[len(marker):len(line)-len(marker)])
+		}
 	}
 
 	return trimmedOutLines
@@ -274,16 +281,18 @@ func getAdditionalPkgInfo(rs rcmd.RSettings, rDir, pkg string) pkgLoadMetadata {
 			"stderr": errLines,
 		}).Warn("could not get package Path and Version info data during load")
 		return pkgLoadMetadata{"could not retrieve", "could not retrieve"}
-	} else if len(outLines) != 2 {
+	} else if len(outLines) < 2 {
 		log.WithFields(log.Fields{
 			"pkg":    pkg,
 			"r_dir":  rDir,
 			"output": outLines,
 			"stderr": errLines,
-		}).Warn("could not parse R command output for package Path and Version info -- expected exactly two lines of output.")
+		}).Warn("could not parse R command output for package Path and Version info -- expected two lines of output.")
 		return pkgLoadMetadata{"could not retrieve", "could not retrieve"}
 	}
 
+	// startup files may have printed lines before
+	outLines = outLines[len(outLines)-2:]
 	pkgPath := strings.ReplaceAll(outLines[0], "\"", "")
 	pkgVersion := strings.ReplaceAll(outLines[1], "\"", "")
 
-- 
2.43.0

