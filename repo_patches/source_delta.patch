From de58cd5cc906774d396e24ae6f264789f7af4ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 01/15] fix: never overwrite a plugin file which is already
 mapped into the process

Retrying a failed load within the same second truncated the copy of the
plugin that the process had just opened, which crashed the process.
---
 pluginManager.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/pluginManager.go b/pluginManager.go
index 553a68a..467006b 100644
--- a/pluginManager.go
+++ b/pluginManager.go
@@ -167,7 +167,34 @@ func (pm *PluginManager) copyPlugin(info *fileInfo) (string, error) {
 
 	sum := xxHash32.Checksum(info.fileSha1[:], 0)
 	dst := filepath.Join(tmpDir, fmt.Sprintf("%s-%#8x%s", info.name, sum, hutils.FileNameExt))
-	return dst, ioutil.WriteFile(dst, info.fileData, 0644)
+	if err := replaceFile(dst, info.fileData); err != nil {
+		return "", err
+	}
+	return dst, nil
+}
+
+// replaceFile never writes to an existing file, which may be a plugin already mapped into the process.
+func replaceFile(file string, data []byte) (errRet error) {
+	tmp, err := ioutil.TempFile(filepath.Dir(file), "*.tmp")
+	if err != nil {
+		return err
+	}
+	defer func() {
+		if errRet != nil {
+			_ = os.Remove(tmp.Name())
+		}
+	}()
+	if _, err := tmp.Write(data); err != nil {
+		_ = tmp.Close()
+		return err
+	}
+	if err := tmp.Close(); err != nil {
+		return err
+	}
+	if err := os.Chmod(tmp.Name(), 0644); err != nil {
+		return err
+	}
+	return os.Rename(tmp.Name(), file)
 }
 
 type pluginFuncItem struct {
-- 
2.43.0


From 04669268f1e39a0782f8b9ed3178c27fcef83cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 02/15] fix: stop at the root directory when searching for
 go.mod

hotswap build never returned, and allocated without bound, when no
directory above the plugin contained a go.mod.
---
 internal/hutils/hutils.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/hutils/hutils.go b/internal/hutils/hutils.go
index 1b87538..5496592 100644
--- a/internal/hutils/hutils.go
+++ b/internal/hutils/hutils.go
@@ -77,7 +77,11 @@ func PackageFromDirectory(dir string) (string, string, error) {
 		f := filepath.Join(absDir, "go.mod")
 		if _, err := os.Stat(f); err != nil {
 			a1 = append(a1, filepath.Base(absDir))
-			absDir = filepath.Dir(absDir)
+			parent := filepath.Dir(absDir)
+			if parent == absDir {
+				break
+			}
+			absDir = parent
 			continue
 		}
 
-- 
2.43.0


From 1a0821c978d231f5ed480546e83672dcd0150342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 03/15] fix: ignore test files when determining the package
 name of a directory

A plugin with an external test package (foo_test) could not be built.
---
 internal/hutils/hutils.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/hutils/hutils.go b/internal/hutils/hutils.go
index 5496592..b8826f2 100644
--- a/internal/hutils/hutils.go
+++ b/internal/hutils/hutils.go
@@ -40,7 +40,9 @@ func PackageFromDirectory(dir string) (string, string, error) {
 	}
 
 	fset := token.NewFileSet()
-	pkgs, err := parser.ParseDir(fset, dir, nil, parser.PackageClauseOnly)
+	pkgs, err := parser.ParseDir(fset, dir, func(info os.FileInfo) bool {
+		return !strings.HasSuffix(info.Name(), "_test.go")
+	}, parser.PackageClauseOnly)
 	if err != nil {
 		return "", "", err
 	}
-- 
2.43.0


From b143c87bc99e0ec45bc463d55267d7f182ee9eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 04/15] fix: do not close the abort channel twice when several
 files fail to copy

Two workers failing at the same time crashed the program with "close of
closed channel" and left the temporary directory behind.
---
 cli/hotswap/cmd/build.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index f7be0c4..b12c656 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -791,13 +791,12 @@ func (bc *buildCmdT) copyFiles(files []string) {
 	burst := runtime.NumCPU() * 5
 	chErr := make(chan error, burst)
 	abort := make(chan struct{})
+	var abortOnce sync.Once
 	reportErr := func(err error) {
 		chErr <- err
-		select {
-		case <-abort:
-		default:
+		abortOnce.Do(func() {
 			close(abort)
-		}
+		})
 	}
 
 	var wg sync.WaitGroup
-- 
2.43.0


From 66f5aecc7ff82fbd6c061c734f249dfa4964a38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 05/15] fix: give every build of a plugin its own package path

Two builds in the same second got the same temporary directory and the
same package path: they removed each others files, and a process which
had loaded one refused the other with "plugin already loaded".
---
 cli/hotswap/cmd/build.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index b12c656..0208bb0 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -227,7 +227,8 @@ func (bc *buildCmdT) execute(cmd *cobra.Command, args []string) {
 		panic(fmt.Errorf("failed to determine the package path. err: %v", err))
 	}
 
-	now := time.Now().Format("02150405")
+	timestamp := time.Now()
+	now := fmt.Sprintf("%s%09d", timestamp.Format("02150405"), timestamp.Nanosecond())
 	commitInfo := bc.commitInfo()
 	if !bc.staticLinking {
 		const format = "%s-%s-%s"
-- 
2.43.0


From c22a2d07caa10058b1ca5bf426d644d0efb98efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 06/15] fix: fail an interrupted build and leave no temporary
 directory behind

After SIGINT the build went on with an incomplete copy of the plugin, and
after SIGTERM with a copy that was being removed. It could exit with 0,
and could leave behind what it created after the removal.
---
 cli/hotswap/cmd/build.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 0208bb0..11397e7 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -273,8 +273,10 @@ func (bc *buildCmdT) execute(cmd *cobra.Command, args []string) {
 		select {
 		case x := <-chSignal:
 			signal.Reset(sigs...)
-			if x == syscall.SIGINT {
+			if x != syscall.SIGQUIT {
 				close(interruptProgram)
+			}
+			if x == syscall.SIGINT {
 				go func() {
 					time.Sleep(time.Second)
 					fmt.Println("\nPress Ctrl-C again to terminate the program immediately.")
@@ -289,6 +291,8 @@ func (bc *buildCmdT) execute(cmd *cobra.Command, args []string) {
 		default:
 		}
 		<-done
+		// Some files may have been created after the removal triggered by a signal.
+		bc.removeTmpDir()
 	}()
 
 	var outputFile string
@@ -354,6 +358,14 @@ func (bc *buildCmdT) outputTiming() {
 	}
 }
 
+func checkInterruption() {
+	select {
+	case <-interruptProgram:
+		panic("interrupted")
+	default:
+	}
+}
+
 func (bc *buildCmdT) removeTmpDir() {
 	if !bc.leaveTemps {
 		_ = os.RemoveAll(bc.tmpDir)
@@ -671,6 +683,7 @@ func (bc *buildCmdT) buildPlugin() string {
 	timing.copyFiles = time.Since(timing.copyFilesStart)
 
 	completePlugin(buildCompletePluginArgs(bc, false, false, nil))
+	checkInterruption()
 
 	outputFileName := filepath.Base(bc.pluginDir) + hutils.FileNameExt
 	outputFile := filepath.Join(bc.outputDir, outputFileName)
@@ -707,6 +720,7 @@ func (bc *buildCmdT) buildPlugin() string {
 	if err := goBuild.Run(); err != nil {
 		panic(err)
 	}
+	checkInterruption()
 
 	return outputFile
 }
@@ -838,6 +852,7 @@ func (bc *buildCmdT) copyFiles(files []string) {
 	}
 
 	wg.Wait()
+	checkInterruption()
 	select {
 	case err := <-chErr:
 		panic(err)
@@ -1035,11 +1050,7 @@ func completePlugin(args completePluginArgs) {
 		if len(pkg.GoFiles) == 0 {
 			continue
 		}
-		select {
-		case <-interruptProgram:
-			return
-		default:
-		}
+		checkInterruption()
 		dir := filepath.Dir(pkg.GoFiles[0])
 		for _, synt := range pkg.Syntax {
 			for _, decl := range synt.Decls {
@@ -1132,11 +1143,7 @@ func completePlugin(args completePluginArgs) {
 	genHotswapMain(args, livePackages, &generated)
 
 	for k, pkg := range livePackages {
-		select {
-		case <-interruptProgram:
-			return
-		default:
-		}
+		checkInterruption()
 		genHotswapLive(args, k, pkg, liveFuncs[k], liveTypes[k], &generated)
 	}
 
-- 
2.43.0


From 14c472365908c4ee310ae93cd15241487530e77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 07/15] fix: keep the static linking code of other plugins

Generating the static linking code of a plugin removed the init files of
all the other plugins, and whatever else had a similar name.
---
 cli/hotswap/cmd/build.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 11397e7..e54cdde 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -478,10 +478,15 @@ func removeStaticFiles(args completePluginArgs) {
 
 	pluginName := filepath.Base(args.pluginDir)
 	allInitFiles := findPluginInitFiles(args)
+	var removedInitFiles []string
 	for _, f := range allInitFiles {
+		if filepath.Base(f) != fmt.Sprintf(hotswapStaticPluginInitFile, pluginName) {
+			continue
+		}
 		if err := os.Remove(f); err != nil {
 			panic(err)
 		}
+		removedInitFiles = append(removedInitFiles, f)
 	}
 
 	pluginVarDefFile := filepath.Join(args.outputDir, hotswapStaticPluginsFile)
@@ -502,11 +507,11 @@ func removeStaticFiles(args completePluginArgs) {
 		for _, f := range a {
 			fmt.Println("\t" + f)
 		}
-		if len(allInitFiles) > 0 {
+		if len(removedInitFiles) > 0 {
 			fmt.Println()
 			fmt.Println("Removed Files:")
 			fmt.Println(strings.Repeat("=", 30))
-			for _, f := range allInitFiles {
+			for _, f := range removedInitFiles {
 				fmt.Println("\t" + filepath.Base(f))
 			}
 		}
-- 
2.43.0


From 154b90ad539c01d7a28229def4caf22775040874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 08/15] fix: reject static plugins with the same name

The second one silently took the place of the first one, whose functions
had been invoked already.
---
 staticPlugin.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/staticPlugin.go b/staticPlugin.go
index cda9663..14e3516 100644
--- a/staticPlugin.go
+++ b/staticPlugin.go
@@ -61,8 +61,15 @@ func (pm *PluginManager) loadStaticPlugins(staticPlugins map[string]*StaticPlugi
 	}
 
 	var a []string
-	for k := range staticPlugins {
+	counters := make(map[string]int)
+	for k, v := range staticPlugins {
 		a = append(a, k)
+		counters[name2key(v.Name)]++
+	}
+	for k, v := range counters {
+		if v > 1 {
+			return fmt.Errorf("duplicate name detected: %s", k)
+		}
 	}
 	sort.Strings(a)
 
-- 
2.43.0


From c54cd17b7e21ba7be8c7c2c457a0a30a3a35ffd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 09/15] fix: accept a whitelist which contains a name twice

Nothing was missing, yet loading failed with an error naming no plugin.
---
 pluginManagerSwapper.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pluginManagerSwapper.go b/pluginManagerSwapper.go
index 538608b..aef07c2 100644
--- a/pluginManagerSwapper.go
+++ b/pluginManagerSwapper.go
@@ -114,13 +114,13 @@ func (sw *PluginManagerSwapper) loadPluginsImpl(data interface{}, cbs []ReloadCa
 		}
 	}
 	if len(sw.opts.whitelist) > 0 {
-		if len(found) != len(sw.opts.whitelist) {
-			var missing []string
-			for _, v := range sw.opts.whitelist {
-				if _, ok := found[v]; !ok {
-					missing = append(missing, v)
-				}
+		var missing []string
+		for _, v := range sw.opts.whitelist {
+			if _, ok := found[v]; !ok {
+				missing = append(missing, v)
 			}
+		}
+		if len(missing) > 0 {
 			return nil, errors.New("cannot find the following plugin(s): " + hutils.Join(missing...))
 		}
 	}
-- 
2.43.0


From e1ab9fd32de52bf6d4d6c13c884953e6c301cc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 10/15] fix: recognize the exported fields of an Import()
 object properly

The first byte of the name was taken for its first letter, so a dependency
with a non-ASCII name could be skipped silently.
---
 pluginManager.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pluginManager.go b/pluginManager.go
index 467006b..8c5bde6 100644
--- a/pluginManager.go
+++ b/pluginManager.go
@@ -13,7 +13,6 @@ import (
 	"sort"
 	"strings"
 	"time"
-	"unicode"
 
 	"github.com/edwingeng/hotswap/internal/hutils"
 	"github.com/edwingeng/hotswap/vault"
@@ -287,7 +286,7 @@ func (pm *PluginManager) initDeps() error {
 		n := impTyp.Elem().NumField()
 		for i := 0; i < n; i++ {
 			field := impTyp.Elem().Field(i)
-			if ch := field.Name[0]; !unicode.IsUpper(rune(ch)) {
+			if !field.IsExported() {
 				continue
 			}
 			if field.Tag.Get("hotswap") == "-" {
-- 
2.43.0


From 69a7fae401a095c4a997ca63e199ccfe854d1be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 11/15] fix: data race between ResetPluginDir and loading

ResetPluginDir could change the directory while a reload was reading it.
It still may be called from a plugin or a reload callback.
---
 pluginManagerSwapper.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pluginManagerSwapper.go b/pluginManagerSwapper.go
index aef07c2..781e07e 100644
--- a/pluginManagerSwapper.go
+++ b/pluginManagerSwapper.go
@@ -39,7 +39,7 @@ type PluginManagerSwapper struct {
 	current atomic.Value
 
 	opts struct {
-		pluginDir      string
+		pluginDir      atomic.Value // string
 		newExt         func() interface{}
 		reloadCallback ReloadCallback
 		freeDelay      time.Duration
@@ -54,7 +54,7 @@ type PluginManagerSwapper struct {
 
 func NewPluginManagerSwapper(pluginDir string, opts ...Option) *PluginManagerSwapper {
 	swapper := &PluginManagerSwapper{Logger: slog.NewDevelopmentConfig().MustBuild()}
-	swapper.opts.pluginDir = pluginDir
+	swapper.opts.pluginDir.Store(pluginDir)
 	swapper.opts.freeDelay = time.Minute * 5
 	for _, opt := range opts {
 		opt(swapper)
@@ -63,7 +63,7 @@ func NewPluginManagerSwapper(pluginDir string, opts ...Option) *PluginManagerSwa
 }
 
 func (sw *PluginManagerSwapper) ResetPluginDir(pluginDir string) {
-	sw.opts.pluginDir = pluginDir
+	sw.opts.pluginDir.Store(pluginDir)
 }
 
 func (sw *PluginManagerSwapper) Current() *PluginManager {
@@ -86,9 +86,10 @@ func (sw *PluginManagerSwapper) LoadPlugins(data interface{}) (Details, error) {
 
 func (sw *PluginManagerSwapper) loadPluginsImpl(data interface{}, cbs []ReloadCallback) (Details, error) {
 	var absDir string
-	if err := hutils.FindDirectory(sw.opts.pluginDir, "pluginDir"); err != nil {
+	pluginDir := sw.opts.pluginDir.Load().(string)
+	if err := hutils.FindDirectory(pluginDir, "pluginDir"); err != nil {
 		return nil, err
-	} else if absDir, err = filepath.Abs(sw.opts.pluginDir); err != nil {
+	} else if absDir, err = filepath.Abs(pluginDir); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From c9c477446abf3ef924cf5fbeeed5908a693c4749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 12/15] fix: Lookup panics when the plugin is statically linked

---
 plugin.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugin.go b/plugin.go
index 0a249f8..388ec76 100644
--- a/plugin.go
+++ b/plugin.go
@@ -82,6 +82,9 @@ func (pl *Plugin) Lookup(symName string, out interface{}) error {
 	if k := outVal.Type().Kind(); k != reflect.Ptr {
 		return fmt.Errorf("out must be a pointer. plugin: %s, symName: %s", pl.Name, symName)
 	}
+	if pl.P == nil {
+		return fmt.Errorf("Lookup does not support static plugins. plugin: %s, symName: %s", pl.Name, symName)
+	}
 	sym, err := pl.P.Lookup(symName)
 	if err != nil {
 		return ErrNotExist
-- 
2.43.0


From 7baed4815c67757fa29928a702d9f1badc42ec02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 13/15] fix: load plugins whose names contain upper-case
 letters

---
 pluginManager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pluginManager.go b/pluginManager.go
index 8c5bde6..1a67945 100644
--- a/pluginManager.go
+++ b/pluginManager.go
@@ -132,7 +132,7 @@ func (pm *PluginManager) loadPlugins(files []string, oldManager *PluginManager,
 	pm.outputStats1(infoMap)
 	pm.when = time.Now()
 	for _, name := range infoMap.names() {
-		info := infoMap.m[name]
+		info := infoMap.m[name2key(name)]
 		curFileInfo = info
 		if err = pm.loadPlugin(info, data); err != nil {
 			return fmt.Errorf("failed to load the plugin %s. err: %w", info.name, err)
-- 
2.43.0


From c58f205219abaf7b77798982089635abeb2d5034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:08 +0000
Subject: [PATCH 14/15] fix: stop if the output directory cannot be searched
 for init files

The error was ignored, so that init files which should have been removed
were left behind and the command succeeded.
---
 cli/hotswap/cmd/build.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index e54cdde..3e163e6 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -418,7 +418,7 @@ func findPluginInitFiles(args completePluginArgs) []string {
 	rexName := regexp.MustCompile(str2)
 
 	var a []string
-	_ = filepath.WalkDir(args.outputDir, func(path string, d fs.DirEntry, err error) error {
+	err := filepath.WalkDir(args.outputDir, func(path string, d fs.DirEntry, err error) error {
 		if err != nil {
 			return err
 		}
@@ -432,6 +432,9 @@ func findPluginInitFiles(args completePluginArgs) []string {
 		}
 		return nil
 	})
+	if err != nil {
+		panic(err)
+	}
 	return a
 }
 
-- 
2.43.0


From ebaf8338bc43b3fbad9f4cda63e57d7dce3d11b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:08 +0000
Subject: [PATCH 15/15] fix: fail if --clean cannot remove the bureau package

The error was ignored and the command succeeded.
---
 cli/hotswap/cmd/build.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 3e163e6..7eb73fb 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -475,7 +475,9 @@ func removeStaticFiles(args completePluginArgs) {
 	if args.cleanOnly {
 		bureauDir := filepath.Join(args.pluginDir, hotswapBureauPackageName)
 		if err := hutils.FindDirectory(bureauDir, ""); err == nil {
-			_ = os.RemoveAll(bureauDir)
+			if err := os.RemoveAll(bureauDir); err != nil {
+				panic(err)
+			}
 		}
 	}
 
-- 
2.43.0

