From c2ba6eeaa04682df90a6f0d48184c503587b9b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 01/93] fix: -e was parsed as --verb, long option codes
 collided with letters

---
 src/main.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main.c b/src/main.c
index da30183..8133380 100644
--- a/src/main.c
+++ b/src/main.c
@@ -152,8 +152,8 @@ int main(int argc, char **argv) {
   // get the extra cflags from the CFLAGS env variable
   // they are overridden by explicit command-line options
   static ko_longopt_t longopts[] = {
-	  { "help", ko_no_argument, 100 },
-	  { "verb", ko_no_argument, 101 },
+	  { "help", ko_no_argument, 301 },
+	  { "verb", ko_no_argument, 302 },
 #if defined(SELFHOST)
 	  { "src",  ko_no_argument, 311 },
 #endif
@@ -171,11 +171,11 @@ int main(int argc, char **argv) {
 			  CJIT->quiet = true;
 	  } else if (c == 'v') {
 		  CJIT->print_status = true;
-	  } else if (c=='h' || c==100) { // help
+	  } else if (c=='h' || c==301) { // help
 		  _err(cli_help,VERSION);
 		  cjit_free(CJIT);
 		  exit(0); // print and exit
-	  } else if (c==101 ) { // verb
+	  } else if (c==302) { // verb
 		  CJIT->quiet = false;
 		  CJIT->verbose = true;
 	  } else if (c == 'D') { // define
-- 
2.43.0


From c94bd2799c91ea931522ef68fd77ca2bd3928c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 02/93] fix: application arguments after -- with several or no
 input files

---
 src/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 8133380..15d5183 100644
--- a/src/main.c
+++ b/src/main.c
@@ -271,7 +271,7 @@ int main(int argc, char **argv) {
 	  else if (c == '?') _err("unknown opt: -%c\n", opt.opt? opt.opt : ':');
 	  else if (c == ':') _err("missing arg: -%c\n", opt.opt? opt.opt : ':');
 	  else if (c == '-') { // -- separator
-		  arg_separator = opt.ind+1; break;
+		  arg_separator = opt.i; break; // first word after --
 	  }
   }
   if(!CJIT->quiet)
@@ -300,7 +300,7 @@ int main(int argc, char **argv) {
   int left_args = arg_separator? arg_separator: argc;
 
   char *stdin_code = NULL;
-  if(opt.ind >= argc) {
+  if(opt.ind >= left_args) {
 	  // no files on commandline
 	  if(CJIT->print_status) {
 		  cjit_status(CJIT);
-- 
2.43.0


From 4ab29a6ebe4b88c72d156851e0d79ef6b723a8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 03/93] fix: ignored compiler flags removed application
 arguments, option values and input files

---
 src/main.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/main.c b/src/main.c
index 15d5183..84b341e 100644
--- a/src/main.c
+++ b/src/main.c
@@ -99,6 +99,9 @@ const char cli_help[] =
 #endif
 	" --xtgz\t extract all files in a USTAR (+) tar.gz\n";
 
+// short options followed by a value
+static const char options_with_value[] = "DLlCIepoa";
+
 const char *ignored_args[] = {
 	"-s",
 	"-static-libgcc",
@@ -413,7 +416,14 @@ char** remove_args(int* argc, char** argv,
     int new_argc = *argc;
     // Second pass: process removal patterns
     for (int i = 0; i < *argc; i++) {
-        if (!keep[i]) continue;  // Already marked for removal
+        // words after -- belong to the application
+        if (strcmp(argv[i], "--") == 0) break;
+        // the value of an option is never an ignored argument
+        if (argv[i][0] == '-' && argv[i][1] && !argv[i][2]
+            && strchr(options_with_value, argv[i][1])) {
+            i++;
+            continue;
+        }
         for (int j = 0; j < remove_count; j++) {
             const char* arg = argv[i];
             const char* pattern = to_remove[j];
@@ -428,19 +438,13 @@ char** remove_args(int* argc, char** argv,
             if (pattern[pattern_len - 1] == ':') {
                 // Check if current argument starts with the pattern (without colon)
                 if (strncmp(arg, pattern, pattern_len - 1) == 0) {
-                    // Check if it's in the form "option:value"
-                    if (isalnum(arg[pattern_len-1])) {
+                    // Check if it's in the form "option:value" or bare,
+                    // these never take the next argument as value
+                    if (isalnum(arg[pattern_len-1]) || arg[pattern_len-1] == '\0') {
                         keep[i] = false;  // Remove the whole "option:value"
                         new_argc--;
                         break;
                     }
-                    // OR if it's in the form "option value" (next argument)
-                    else if (i + 1 < *argc && arg[pattern_len - 1] == '\0') {
-                        keep[i] = false;    // Remove the option
-                        keep[i + 1] = false; // Remove the value
-                        new_argc -= 2;
-                        break;
-                    }
                 }
             }
         }
-- 
2.43.0


From 328ca8383c2f30044ad4a8848590f384c24e1070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 04/93] fix: inputs that fail to load or compile were ignored,
 running or writing an incomplete program

---
 src/cjit.c | 16 +++++++++++-----
 src/main.c |  7 +++----
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index 329b976..3c8045a 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -454,8 +454,9 @@ bool cjit_add_source(CJITState *cjit, const char *path) {
 			free(tmp);
 		}
 	}
-	tcc_compile_string(tcc(cjit),contents);
+	res = tcc_compile_string(tcc(cjit),contents);
 	free(contents);
+	if(res<0) return false;
 	debug("+S %s",path);
 	return true;
 }
@@ -500,13 +501,17 @@ bool cjit_compile_file(CJITState *cjit, const char *path) {
 		return false;
 	}
 	setup;
-	tcc_add_file(tcc(cjit), path);
+	if(tcc_add_file(tcc(cjit), path)<0) {
+		_err("%s: error: %s",__func__, path);
+		return false;
+	}
 	if(cjit->output_filename) {
 		if(!cjit->quiet)
 			_err("Compiling: %s -> %s",path,
 			     cjit->output_filename);
-		tcc_output_file(tcc(cjit),
-				cjit->output_filename);
+		if(tcc_output_file(tcc(cjit),
+				   cjit->output_filename)<0)
+			return false;
 	} else {
 		char *ext;
 		size_t extlen;
@@ -520,8 +525,9 @@ bool cjit_compile_file(CJITState *cjit, const char *path) {
 		strcpy(ext,".o");
 		if(!cjit->quiet)
 			_err("Compiling: %s -> %s",path,tmp);
-		tcc_output_file(tcc(cjit),tmp);
+		int res = tcc_output_file(tcc(cjit),tmp);
 		free(tmp);
+		if(res<0) return false;
 	}
 	return true;
 }
diff --git a/src/main.c b/src/main.c
index 84b341e..a160186 100644
--- a/src/main.c
+++ b/src/main.c
@@ -137,8 +137,7 @@ int main(int argc, char **argv) {
 	  int res = 0;
 	  CJIT->output_filename = "a.out";
 	  cjit_set_output(CJIT, EXE);
-	  cjit_add_file(CJIT, argv[1]);
-	  if(cjit_link(CJIT)<0) {
+	  if(!cjit_add_file(CJIT, argv[1]) || cjit_link(CJIT)!=0) {
 		  _err("Error in linker compiling to file: %s",
 		       CJIT->output_filename);
 		  res = 1;
@@ -371,7 +370,7 @@ int main(int argc, char **argv) {
 				  goto endgame;
 			  } else free(stdin_code);
 		  } else { // load any file path
-			  cjit_add_file(CJIT, code_path);
+			  if(!cjit_add_file(CJIT, code_path)) goto endgame;
 		  }
 	  }
   }
@@ -381,7 +380,7 @@ int main(int argc, char **argv) {
   if(CJIT->print_status) cjit_status(CJIT);
   if(CJIT->output_filename) {
 	  _err("Create executable: %s", CJIT->output_filename);
-	  if(cjit_link(CJIT)<0) {
+	  if(cjit_link(CJIT)!=0) {
 		  _err("Error in linker compiling to file: %s",
 		       CJIT->output_filename);
 		  res = 1;
-- 
2.43.0


From 9fddb3d7b77301fec14dcb7fe9fa8d7b0a1462e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:31 +0000
Subject: [PATCH 05/93] fix: source files shorter than 3 bytes were refused,
 short reads accepted

---
 src/cjit.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index 3c8045a..bf37f73 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -359,7 +359,7 @@ static int has_source_extension(const char *path) {
 }
 
 static int detect_bom(const char *filename,size_t *filesize) {
-	uint8_t bom[3];
+	uint8_t bom[3] = {0};
 	int res;
 	int fd = open(filename, O_RDONLY | O_BINARY);
 	if(fd<0) {
@@ -375,7 +375,7 @@ static int detect_bom(const char *filename,size_t *filesize) {
 	*filesize = st.st_size;
 	res = read(fd,bom,3);
 	close(fd);
-	if (res!=3) {
+	if (res<0) { // may be shorter than a bom
 		fail(filename);
 		return -1;
 	}
@@ -436,8 +436,9 @@ bool cjit_add_source(CJITState *cjit, const char *path) {
 	}
 	strcpy(contents,spath);
 	free(spath);
-	if(0== fread(contents+spath_len, 1, length, file)) {
-		fail(file);
+	if(length != fread(contents+spath_len, 1, length, file)) {
+		fail(path);
+		free(contents);
 		fclose(file);
 		return false;
 	}
-- 
2.43.0


From 6f6fda7d180fca477e789f01e0f99c456dd044a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 06/93] fix: quoted includes of a source were searched in the
 current directory and not next to it

---
 src/cjit.c | 46 +++++++++++-----------------------------------
 1 file changed, 11 insertions(+), 35 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index bf37f73..c78f6ce 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -411,39 +411,6 @@ bool cjit_add_source(CJITState *cjit, const char *path) {
 		_err("Encoding is not yet supported, execution aborted.");
 		return false;
 	}
-	FILE *file = fopen(path, "rb");
-	if (!file) {
-		fail(path);
-		return false;
-	}
-	char *spath = (char*)malloc((strlen(path)+16)*sizeof(char));
-	if (!spath) {
-		fail(path);
-		fclose(file);
-		return false;
-	}
-	sprintf(spath,"#line 1 \"%s\"\n",path);
-	size_t spath_len = strlen(spath);
-	char *contents =
-		(char*)malloc
-		((spath_len + length + 1)
-		 * sizeof(char));
-	if (!contents) {
-		fail(path);
-		free(spath);
-		fclose(file);
-		return false;
-	}
-	strcpy(contents,spath);
-	free(spath);
-	if(length != fread(contents+spath_len, 1, length, file)) {
-		fail(path);
-		free(contents);
-		fclose(file);
-		return false;
-	}
-	contents[length+spath_len] = 0x0;
-	fclose(file);
 	{ // if inside a dir then add dir to includes too
 		size_t dirname;
 		cwk_path_get_dirname(path,&dirname);
@@ -455,8 +422,17 @@ bool cjit_add_source(CJITState *cjit, const char *path) {
 			free(tmp);
 		}
 	}
-	res = tcc_compile_string(tcc(cjit),contents);
-	free(contents);
+	// compile the file in place rather than its contents as a string, so
+	// that it includes the headers found next to it. Source extensions
+	// tinyCC doesn't know need the language set explicitly.
+	const char *ext = strrchr(path,'.');
+	if(ext && strcmp(ext,".c")!=0) {
+		tcc_set_options(tcc(cjit),"-xc");
+		res = tcc_add_file(tcc(cjit),path);
+		tcc_set_options(tcc(cjit),"-xnone");
+	} else {
+		res = tcc_add_file(tcc(cjit),path);
+	}
 	if(res<0) return false;
 	debug("+S %s",path);
 	return true;
-- 
2.43.0


From 68863b06ee3ecfe4e0a63ef47f9a51494a217fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 07/93] fix: pid file was written after the application
 started, or failed to be written leaving it running

---
 src/cjit.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index c78f6ce..df21591 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -586,21 +586,25 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 	pid_t pid;
 	cjit->done_exec = true;
 	pid = fork();
+	if (pid < 0) {
+		fail("fork");
+		return -1;
+	}
 	if (pid == 0) {
-		res = _ep(argc, argv);
-		exit(res);
-	} else {
+		// written before the application starts, which doesn't run
+		// when its pid cannot be saved
 		if(cjit->write_pid) {
-			// pid_t pid = getpid();
 			FILE *fd = fopen(cjit->write_pid, "w");
-			if(!fd) {
+			if(!fd || fprintf(fd,"%d\n",getpid())<0
+			   || fclose(fd)!=0) {
 				fail(cjit->write_pid);
 				_err("Cannot create pid file");
-				return -1;
+				_exit(255);
 			}
-			fprintf(fd,"%d\n",pid);
-			fclose(fd);
 		}
+		res = _ep(argc, argv);
+		exit(res);
+	} else {
 		int status;
 		int ret;
 		ret = waitpid(pid, &status, WUNTRACED | WCONTINUED);
-- 
2.43.0


From 965cb7f2dc650e0725d133c53c7912a7dfc8b76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 08/93] fix: cjit ended leaving the application behind when
 that was stopped

---
 src/cjit.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index df21591..1db8e5a 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -607,9 +607,12 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 	} else {
 		int status;
 		int ret;
-		ret = waitpid(pid, &status, WUNTRACED | WCONTINUED);
+		// wait until it ends, also when stopped and continued
+		do ret = waitpid(pid, &status, 0);
+		while(ret<0 && errno==EINTR);
 		if (ret != pid){
-			_err("Wait error in source: %s",cjit->entry);
+			fail("waitpid");
+			return -1;
 		}
 		if (WIFEXITED(status)) {
 			res = WEXITSTATUS(status);
@@ -617,12 +620,6 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 		} else if (WIFSIGNALED(status)) {
 			res = WTERMSIG(status);
 			_err("Process terminated with signal %d", WTERMSIG(status));
-		} else if (WIFSTOPPED(status)) {
-			res = WSTOPSIG(status);
-			//_err("Process has returned %d", WSTOPSIG(status));
-		} else if (WIFSTOPPED(status)) {
-			res = WSTOPSIG(status);
-			_err("Process stopped with signal", WSTOPSIG(status));
 		} else {
 			_err("wait: unknown status: %d", status);
 		}
-- 
2.43.0


From b6df5f9891cebd1894beffa62573a12230ecda47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 09/93] fix: source code from stdin was appended to
 uninitialized memory

---
 src/file.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/file.c b/src/file.c
index 7b15a64..af3dd07 100644
--- a/src/file.c
+++ b/src/file.c
@@ -85,6 +85,7 @@ char *load_stdin() {
 	char *code = NULL;
 	char *line = NULL;
 	size_t len = 0;
+	size_t used = 0;
 	ssize_t rd;
 	fflush(stdout);
 	fflush(stderr);
@@ -94,13 +95,17 @@ char *load_stdin() {
 			free(line);
 			break;
 		}
-		code = realloc(code, (code?strlen(code):0) + len + 1);
-		if (!code) {
+		char *more = realloc(code, used + rd + 1);
+		if (!more) {
 			fail("malloc error");
+			free(code);
 			free(line);
 			return NULL;
 		}
-		strcat(code, line);
+		code = more;
+		memcpy(code + used, line, rd);
+		used += rd;
+		code[used] = 0x0;
 		free(line);
 		line = NULL;
 	}
-- 
2.43.0


From fe938ee60cb854b18dcf231d3dc06ba45c3692e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 10/93] fix: messages longer than the buffer were printed past
 its end

---
 src/cjit.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cjit.c b/src/cjit.c
index 1db8e5a..8ff41a5 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -684,6 +684,8 @@ void _out(const char *fmt, ...) {
   va_start(args, fmt);
   int len = vsnprintf(msg, MAX_STRING, fmt, args);
   va_end(args);
+  if(len < 0) len = 0;
+  if(len >= MAX_STRING) len = MAX_STRING-1; // truncated
   msg[len] = '\n';
   msg[len+1] = 0x0; //safety
   if(write(fileno(stdout), msg, len+1) <0)
@@ -698,6 +700,8 @@ void _err(const char *fmt, ...) {
   va_start(args, fmt);
   len = vsnprintf(msg, MAX_STRING, fmt, args);
   va_end(args);
+  if(len < 0) len = 0;
+  if(len >= MAX_STRING) len = MAX_STRING-1; // truncated
   msg[len] = '\n';
   msg[len+1] = 0x0;
   if(write(fileno(stderr),msg,len+1) <0)
-- 
2.43.0


From 98292bd0f31e963f7816261a4a910217ae77d39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 11/93] fix: asset path used as format string, version read
 past its end when empty

---
 src/main.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index a160186..2dea235 100644
--- a/src/main.c
+++ b/src/main.c
@@ -250,12 +250,12 @@ int main(int argc, char **argv) {
 #if !defined(SHAREDTCC)
 	  } else if (c == 401) { // --xass
 		  if(opt.arg) {
-			  _err("Extracting runtime assets to:",opt.arg);
+			  _err("Extracting runtime assets to: %s",opt.arg);
 			  extract_assets(CJIT,opt.arg);
 		  } else {
 			  extract_assets(CJIT,NULL);
 		  }
-		  _out(CJIT->tmpdir);
+		  _out("%s",CJIT->tmpdir);
 		  cjit_free(CJIT);
 		  exit(0);
 #endif
@@ -277,7 +277,8 @@ int main(int argc, char **argv) {
 	  }
   }
   if(!CJIT->quiet)
-	_err("cjit version %s (c) 2024-2025 Dyne.org foundation",&VERSION[1]);
+	_err("cjit version %s (c) 2024-2025 Dyne.org foundation",
+		VERSION[0]?&VERSION[1]:"");
 
 #if 0
   // If no arguments then start the REPL
-- 
2.43.0


From 17fa031c35151f6176d363ebb7f922e63d82e443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 12/93] fix: libraries behind absolute, chained or long
 symbolic links were not found

---
 src/elflinker.c | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/elflinker.c b/src/elflinker.c
index 155dd51..34af3fe 100644
--- a/src/elflinker.c
+++ b/src/elflinker.c
@@ -140,21 +140,11 @@ static char *new_solve_symlink(const char *path) {
         return NULL;
     }
     if (S_ISLNK(statbuf.st_mode)) {
-		int tlen = strlen(path);
-		char *tpath = malloc(tlen); // ALLOC tpath
-        ssize_t len = readlink(path, tpath, tlen-1);
-        if (len == -1) {
-			free(tpath);
+		reallib = realpath(path, NULL); // ALLOC
+        if (!reallib) {
             fail(path);
 			return NULL;
         }
-		tpath[len] = 0x0;
-		size_t rlen = tlen + len;
-		reallib = malloc(rlen+1); // ALLOC
-		cwk_path_get_dirname(path,&rlen);
-		memcpy(reallib,path,rlen);
-		strcpy(&reallib[rlen],tpath);
-		free(tpath);               // FREE tpath
     } else if (S_ISREG(statbuf.st_mode)) {
 		reallib = malloc(strlen(path)+1); // ALLOC
 		strcpy(reallib,path);
-- 
2.43.0


From 219cf8230be84555b7322fd730b22f08414e6290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 13/93] fix: only the first file of a linker script was loaded,
 missing ones were not reported

---
 src/elflinker.c | 75 ++++++++++++++++++-------------------------------
 1 file changed, 27 insertions(+), 48 deletions(-)

diff --git a/src/elflinker.c b/src/elflinker.c
index 34af3fe..2905493 100644
--- a/src/elflinker.c
+++ b/src/elflinker.c
@@ -192,12 +192,12 @@ static int find_library(CJITState *cjit, const char *path) {
 	}
 	fclose(fd);
 	if(is_ldscript) {
-		LDState s1;
+		LDState s1 = {0};
 		int rr;
 		s1.libs = cjit->reallibs;
 		s1.libpaths = cjit->libpaths;
 		rr = resolve_ldscript(&s1, reallib);
-		if(rr<1)_err("Library not found: %s",reallib);
+		if(rr!=0)_err("Library not found: %s",reallib);
 	} else {
 		XArray_AddData(cjit->reallibs,reallib,strlen(reallib));
 	}
@@ -335,57 +335,39 @@ static int ld_next(LDState *s1, char *name, int name_size)
     return c;
 }
 
+// returns 0 on success
 static int ld_add_file(LDState *s1, const char filename[]) {
 	char tryfile[PATH_MAX];
 	int libpaths_num;
 	char *lpath;
     struct stat statbuf;
 	if(cwk_path_is_absolute(filename)) {
-		if (lstat(filename, &statbuf) == -1) {
+		if (stat(filename, &statbuf) == -1) {
 			fail(filename);
-			return 0;
+			return 1;
 		}
-		if (S_ISREG(statbuf.st_mode)) {
-			strcpy(tryfile,filename);
-		} else if (S_ISLNK(statbuf.st_mode)) {
-			ssize_t len = readlink(filename, tryfile, PATH_MAX-1);
-			if (len == -1) {
-				fail(filename);
-				return 0;
-			}
-			tryfile[len] = 0x0;
-		} else {
+		if (!S_ISREG(statbuf.st_mode)) {
 			_err("Library file not recognized: %s",filename);
-			return 0;
+			return 1;
 		}
-	} else {
-		libpaths_num = XArray_Used(s1->libpaths);
-		// search in all paths if lib%s.so exists
-		// TODO: support --static here
-		for(int ii=0;ii<libpaths_num;ii++) {
-			lpath = XArray_GetData(s1->libpaths,ii);
-			cwk_path_join(lpath,filename,tryfile,PATH_MAX);
-			if (lstat(tryfile, &statbuf) == -1) continue;
-			if (S_ISREG(statbuf.st_mode)) break;
-			if (S_ISLNK(statbuf.st_mode)) {
-				int tlen = strlen(tryfile)+64;
-				char *tpath = malloc(tlen); // ALLOC tpath
-				ssize_t len = readlink(tryfile, tpath, tlen-1);
-				if (len == -1) {
-					free(tpath);
-					fail(tryfile);
-					continue;
-				}
-				tpath[len] = 0x0;
-				cwk_path_join(lpath,tpath,tryfile,PATH_MAX);
-				free(tpath);
-				break;
-			}
-			// check ELF BOM in file
-			_err("Library file not recognized: %s",tryfile);
+		XArray_AddData(s1->libs, (void*)filename, strlen(filename));
+		return 0;
+	}
+	libpaths_num = XArray_Used(s1->libpaths);
+	// search in all paths if the file exists
+	// TODO: support --static here
+	for(int ii=0;ii<libpaths_num;ii++) {
+		lpath = XArray_GetData(s1->libpaths,ii);
+		cwk_path_join(lpath,filename,tryfile,PATH_MAX);
+		if (stat(tryfile, &statbuf) == -1) continue;
+		if (S_ISREG(statbuf.st_mode)) {
+			XArray_AddData(s1->libs, tryfile, strlen(tryfile));
+			return 0;
 		}
+		// check ELF BOM in file
+		_err("Library file not recognized: %s",tryfile);
 	}
-	XArray_AddData(s1->libs, tryfile, strlen(tryfile));
+	_err("Library not found: %s",filename);
 	return 1;
 }
 
@@ -468,7 +450,7 @@ static int ld_add_file_list(LDState *s1, const char *cmd, int as_needed) {
 static int resolve_ldscript(LDState *s1, char *path) {
     char cmd[64];
     char filename[1024];
-    int t, ret;
+    int t, ret = -1;
 	int fd = open(path, O_RDONLY | O_BINARY);
 	if(fd<0) {
 		fail(path);
@@ -489,10 +471,7 @@ static int resolve_ldscript(LDState *s1, char *path) {
         if (!strcmp(cmd, "INPUT") ||
             !strcmp(cmd, "GROUP")) {
             ret = ld_add_file_list(s1, cmd, 0);
-            if (ret) {
-				close(fd);
-				break;
-			}
+            if (ret) break;
         } else if (!strcmp(cmd, "OUTPUT_FORMAT") ||
                    !strcmp(cmd, "TARGET")) {
             /* ignore some commands */
@@ -500,7 +479,7 @@ static int resolve_ldscript(LDState *s1, char *path) {
             if (t != '(') {
 					_err("%s: ( expected while parsing %s",
 						 __func__,path);
-					close(fd);
+					ret = -1;
 					break;
 			}
             for(;;) {
@@ -509,7 +488,7 @@ static int resolve_ldscript(LDState *s1, char *path) {
 					_err("%s: unexpected end of file in %s",
 						 __func__,path);
 					close(fd);
-					return 0;
+					return -1;
                 } else if (t == ')') {
                     break;
                 }
-- 
2.43.0


From f7fdb6d951d9ef3376453b2e1d4974b3099d7c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 14/93] fix: write errors of extracted files were ignored

---
 src/muntar.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/muntar.c b/src/muntar.c
index 3a484c1..337ecc2 100644
--- a/src/muntar.c
+++ b/src/muntar.c
@@ -228,9 +228,16 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 				perror("Reason: ");
 				return(MTAR_EWRITEFAIL);
 			}
-			fwrite(&tar.buffer[tar.iterator.cursor],
-			       1,header->size,fp);
-			fclose(fp);
+			const size_t written =
+				fwrite(&tar.buffer[tar.iterator.cursor],
+				       1,header->size,fp);
+			if(fclose(fp)!=0 || written!=header->size) {
+				fprintf(stderr,
+					"Error writing file: %s\n",
+					tpath);
+				perror("Reason: ");
+				return(MTAR_EWRITEFAIL);
+			}
 			break;
 		}
 		mtar_next(&tar);
-- 
2.43.0


From f705373af61451a4264b0509e371fdbb4cd1ccab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 15/93] fix: concurrent or interrupted first runs used
 incomplete runtime assets

---
 src/cjit.c | 59 +++++++++++++++++++++++++++++++++++++++++++++++++++---
 src/cjit.h |  2 ++
 src/main.c |  9 +++++----
 3 files changed, 63 insertions(+), 7 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index 8ff41a5..a598f6d 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -32,12 +32,18 @@
 #include <fcntl.h> // open(2)
 #include <inttypes.h>
 #include <sys/stat.h> // fstat(2)
+#if !defined(_WIN32)
+#include <sys/file.h> // flock(2)
+#endif
 
 #define tcc(cjit) (TCCState*)cjit->TCC
-#define setup if(!cjit->done_setup)cjit_setup(cjit)
+#define setup if(!cjit->done_setup && !cjit_setup(cjit)) return false
 #define debug(fmt,par) if(cjit->verbose)_err(fmt,par)
 #define add(buf,s) if(s!=NULL)XArray_AddData((xarray_t*)cjit->buf,(char*)s,strlen(s)+1); else _err("!!! NULL var added to array: %s","buf")
 
+// file marking a directory of runtime assets as completely populated
+#define ASSETS_COMPLETE ".cjit-complete"
+
 // declared at bottom
 void _out(const char *fmt, ...);
 void _err(const char *fmt, ...);
@@ -128,9 +134,55 @@ bool cjit_mkdtemp(CJITState *cjit, const char *optional_path) {
 	cjit->tmpdir = malloc(strlen(tempDir)+1);
 	strcpy(cjit->tmpdir, tempDir);
 	free(tempDir);
+#if !defined(WINDOWS)
+	// only a directory marked complete is used as is, else one process
+	// at a time populates it: see cjit_install_assets()
+	char marker[MAX_PATH+32];
+	snprintf(marker,sizeof(marker),"%s/%s",cjit->tmpdir,ASSETS_COMPLETE);
+	cjit->fresh = access(marker,F_OK) != 0;
+	if(cjit->fresh) {
+		cjit->tmplock = open(cjit->tmpdir, O_RDONLY | O_CLOEXEC);
+		if(cjit->tmplock < 0) {
+			fail(cjit->tmpdir);
+			return(false);
+		}
+		int res;
+		do res = flock(cjit->tmplock, LOCK_EX);
+		while(res<0 && errno==EINTR);
+		if(res<0) {
+			fail(cjit->tmpdir);
+			return(false);
+		}
+		// another process may have completed it meanwhile
+		cjit->fresh = access(marker,F_OK) != 0;
+	}
+#endif
 	return(true);
 }
 
+#if !defined(SHAREDTCC)
+// extract runtime assets, in such a way that other processes doing the same
+// and processes interrupted while doing it never leave an incomplete set
+// that is considered installed
+bool cjit_install_assets(CJITState *cjit, const char *optional_path) {
+	bool res = extract_assets(cjit, optional_path);
+#if !defined(WINDOWS)
+	if(res && cjit->fresh) {
+		char marker[MAX_PATH+32];
+		snprintf(marker,sizeof(marker),"%s/%s",
+			 cjit->tmpdir,ASSETS_COMPLETE);
+		int fd = open(marker, O_WRONLY | O_CREAT, 0644);
+		if(fd<0) fail(marker);
+		else close(fd);
+		res = fd>=0;
+	}
+	if(cjit->tmplock >= 0) close(cjit->tmplock); // unlocks
+	cjit->tmplock = -1;
+#endif
+	return(res);
+}
+#endif
+
 static void cjit_tcc_handle_error(void *n, const char *m) {
   (void)n;
   _err("%s",m);
@@ -140,6 +192,7 @@ CJITState* cjit_new() {
 	CJITState *cjit = NULL;
 	cjit = malloc(sizeof(CJITState));
 	memset(cjit,0x0,sizeof(CJITState));
+	cjit->tmplock = -1;
 	// quiet is by default on when cjit's output is redirected
 	// errors will still be printed on stderr
 	cjit->quiet = isatty(fileno(stdout))?false:true;
@@ -184,9 +237,9 @@ static bool cjit_setup(CJITState *cjit) {
 	}
 #if !defined(SHAREDTCC)
 	// extract all runtime assets to tmpdir
-	if(!extract_assets(cjit,NULL)) {
+	if(!cjit_install_assets(cjit,NULL)) {
 		fail("error extracting assets in temp dir");
-		return(NULL);
+		return(false);
 	}
 #endif
 	tcc_set_output_type(tcc(cjit), cjit->tcc_output);
diff --git a/src/cjit.h b/src/cjit.h
index 9533b4f..5c59104 100644
--- a/src/cjit.h
+++ b/src/cjit.h
@@ -40,6 +40,7 @@ struct CJITState {
 	bool quiet; // print less to stderr
 	bool verbose; // print more to stderr
 	bool fresh; // tempdir is freshly created and needs to be populated
+	int tmplock; // open on tempdir to keep it locked while populating
 	int tcc_output; //
 	// #define TCC_OUTPUT_MEMORY   1 /* output will be run in memory */
 	// #define TCC_OUTPUT_EXE      2 /* executable file */
@@ -96,6 +97,7 @@ void cjit_set_tcc_options(CJITState *cjit, const char *opts);
 // from embedded.c - generated at build time
 extern bool extract_assets(CJITState *CJIT, const char *optional_path);
 extern bool cjit_mkdtemp(CJITState *cjit, const char *optional_path);
+extern bool cjit_install_assets(CJITState *cjit, const char *optional_path);
 /////////////
 // from file.c
 extern char* file_load(const char *filename, unsigned int *len);
diff --git a/src/main.c b/src/main.c
index 2dea235..0cd093e 100644
--- a/src/main.c
+++ b/src/main.c
@@ -249,11 +249,12 @@ int main(int argc, char **argv) {
 #endif
 #if !defined(SHAREDTCC)
 	  } else if (c == 401) { // --xass
-		  if(opt.arg) {
+		  if(opt.arg)
 			  _err("Extracting runtime assets to: %s",opt.arg);
-			  extract_assets(CJIT,opt.arg);
-		  } else {
-			  extract_assets(CJIT,NULL);
+		  if(!cjit_install_assets(CJIT,opt.arg)) {
+			  _err("Error extracting runtime assets");
+			  cjit_free(CJIT);
+			  exit(1);
 		  }
 		  _out("%s",CJIT->tmpdir);
 		  cjit_free(CJIT);
-- 
2.43.0


From b697c88255332cd4647561ad913f8ac37f77b3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 16/93] fix: truncated or corrupt tar archives were extracted
 in part and reported as success, reading past their end

---
 src/muntar.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/muntar.c b/src/muntar.c
index 337ecc2..babc28d 100644
--- a/src/muntar.c
+++ b/src/muntar.c
@@ -94,15 +94,17 @@ static int raw_to_header(mtar_header_t *h, const mtar_raw_header_t *rh)
 {
 	unsigned chksum1, chksum2;
 
-	/* if the checksum starts with a null byte we assume the record is NULL */
-	if (*rh->checksum == '\0') return MTAR_ENULLRECORD;
+	/* the end of the archive is a record of zeroes */
+	static const mtar_raw_header_t null_record;
+	if (memcmp(rh, &null_record, sizeof(null_record)) == 0)
+		return MTAR_ENULLRECORD;
 
 	/* validate header fields */
 	chksum1 = checksum(rh);
 	chksum2 = (uint32_t) decodeTarOctal(rh->checksum, sizeof(rh->checksum));
 	if (chksum1 != chksum2) return MTAR_EBADCHKSUM;
 
-	if (strncmp(rh->magic, TMAGIC, sizeof(rh->magic)) != 0) return MTAR_ENULLRECORD;
+	if (strncmp(rh->magic, TMAGIC, sizeof(rh->magic)) != 0) return MTAR_EFAILURE;
 
 	h->mode     = (uint32_t) decodeTarOctal(rh->mode, sizeof(rh->mode));
 	h->uid      = (uint32_t) decodeTarOctal(rh->uid, sizeof(rh->uid));
@@ -199,8 +201,17 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 			strcpy(p,header->name);
 			makedir(tpath);
 			break;
+		case MTAR_TREG:
+			// contents must be in the archive
+			if(header->size > tar.max - tar.iterator.cursor)
+				return(MTAR_EREADFAIL);
+			break;
+		}
+		res = mtar_next(&tar);
+		if(res != MTAR_ESUCCESS && res != MTAR_ENULLRECORD) {
+			fprintf(stderr,"Error in tar archive: %i\n",res);
+			return(res);
 		}
-		mtar_next(&tar);
 	}
 	mtar_rewind(&tar);
 	while(!mtar_eof(&tar)) {
-- 
2.43.0


From 42721b1419eccf59dcb680235467f6c65a5c627e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 17/93] fix: tar archives could write outside of the
 destination directory

---
 src/muntar.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/muntar.c b/src/muntar.c
index babc28d..c1c6949 100644
--- a/src/muntar.c
+++ b/src/muntar.c
@@ -167,6 +167,17 @@ static int mtar_rewind(mtar_t *tar) {
 #define makedir(path) mkdir(path,0755)
 #endif
 
+// true if any segment of the path leads to its parent
+static int has_parent_segment(const char *p) {
+	while(*p) {
+		size_t seg = strcspn(p,"/\\");
+		if(seg==2 && p[0]=='.' && p[1]=='.') return 1;
+		p += seg;
+		if(*p) p++;
+	}
+	return 0;
+}
+
 // used by extract_assets(char *tmpdir)
 int muntar_to_path(const char *path, const uint8_t *buf,
 		  const unsigned int len) {
@@ -187,6 +198,12 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 		p = tpath+pathlen;
 		*p = '/'; p++;
 		mtar_header(&tar, &header);
+		if(has_parent_segment(header->path)
+		   || has_parent_segment(header->name)) {
+			fprintf(stderr,"Path outside of destination: %s\n",
+				header->name);
+			return(MTAR_EFAILURE);
+		}
 		switch(header->type) {
 		case MTAR_TDIR:
 			if(header->path[0]!=0) { // subdir
-- 
2.43.0


From eb0ecf268eb0eb98150e1accc757771494c2caa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 18/93] fix: archives compressed by more than a factor of 10
 were refused

---
 src/muntar.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/muntar.c b/src/muntar.c
index c1c6949..2e989c5 100644
--- a/src/muntar.c
+++ b/src/muntar.c
@@ -276,7 +276,6 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 #if !defined(NOGUNZIP)
 // gunzip and untar all in one
 #include <tinf.h>
-#define DECOMPRESSED_SIZE_RATIO 10 // raise this on errors
 int muntargz_to_path(const char *path, const uint8_t *buf,
 		    const unsigned int len) {
 	if(!buf) {
@@ -290,8 +289,22 @@ int muntargz_to_path(const char *path, const uint8_t *buf,
 		return(-1);
 	}
 	int res;
-	unsigned int destlen = len*DECOMPRESSED_SIZE_RATIO;
-	uint8_t *dest = malloc(destlen);
+	if(len < 18) { // shortest gzip member
+		fprintf(stderr,"%s: buffer too short\n",
+			__func__);
+		return(-1);
+	}
+	// the decompressed size is found in the last 4 bytes
+	unsigned int destlen = (unsigned int)buf[len-4]
+		| (unsigned int)buf[len-3] << 8
+		| (unsigned int)buf[len-2] << 16
+		| (unsigned int)buf[len-1] << 24;
+	uint8_t *dest = malloc((size_t)destlen+1);
+	if(!dest) {
+		fprintf(stderr,"%s: out of memory\n",
+			__func__);
+		return(-1);
+	}
 	res = tinf_gzip_uncompress(dest,&destlen,buf,len);
 	// fprintf(stdout,"Compressed source length: %u\n",len);
 	// fprintf(stdout,"Uncompressed destination length: %u\n",destlen);
-- 
2.43.0


From 290a720b2aac6ebe7032af85dff1596748f6f252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 19/93] fix: --xtgz returned success when extraction failed

---
 src/main.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 0cd093e..f1e699f 100644
--- a/src/main.c
+++ b/src/main.c
@@ -268,8 +268,7 @@ int main(int argc, char **argv) {
 			  file_load(opt.arg, &len);
 		  if(!targz) exit(1);
 		  if(!len) exit(1);
-		  muntargz_to_path(".",targz,len);
-		  exit(0);
+		  exit(muntargz_to_path(".",targz,len)==0 ? 0 : 1);
 	  }
 	  else if (c == '?') _err("unknown opt: -%c\n", opt.opt? opt.opt : ':');
 	  else if (c == ':') _err("missing arg: -%c\n", opt.opt? opt.opt : ':');
-- 
2.43.0


From e06c76b140852d5f5be413697bdff93e0ba35f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 20/93] fix: lists wrote past their end when shrinking, or when
 full and of fixed size

---
 src/array.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/array.c b/src/array.c
index 79374b0..d0c8c34 100644
--- a/src/array.c
+++ b/src/array.c
@@ -169,7 +169,7 @@ size_t XArray_Realloc(xarray_t *pArr)
             return 0;
         }
 
-        size_t nCopySize = sizeof(xarray_data_t*) * pArr->nSize;
+        size_t nCopySize = sizeof(xarray_data_t*) * nUsed;
         memcpy(pData, pArr->pData, nCopySize);
 
         free(pArr->pData);
@@ -197,7 +197,10 @@ size_t XArray_CheckSpace(xarray_t *pArr)
         pArr->nAlloc = nAlloc;
     }
     else if (pArr->nUsed >= pArr->nSize)
-        return XArray_Realloc(pArr);
+    {
+        XArray_Realloc(pArr);
+        return pArr->nUsed < pArr->nSize ? 1 : 0;
+    }
 
     return pArr->pData == NULL ? 0 : 1;
 }
-- 
2.43.0


From 64cd52fd3e682d889dde4160a44cae33e3c86c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 21/93] fix: lists kept deleted elements, bubble sort and keys
 over 2^31 were misordered

---
 src/array.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/array.c b/src/array.c
index d0c8c34..d017ac0 100644
--- a/src/array.c
+++ b/src/array.c
@@ -310,7 +310,7 @@ xarray_data_t* XArray_Remove(xarray_t *pArr, size_t nIndex)
 
 void XArray_Delete(xarray_t *pArr, size_t nIndex)
 {
-    xarray_data_t *pData = XArray_Get(pArr, nIndex);
+    xarray_data_t *pData = XArray_Remove(pArr, nIndex);
     if (pData != NULL) XArray_ClearData(pArr, pData);
 }
 
@@ -384,7 +384,7 @@ static int XArray_CompareSize(const void *pData1, const void *pData2, void *pCtx
     (void)pCtx;
     xarray_data_t *pFirst = (xarray_data_t*)pData1;
     xarray_data_t *pSecond = (xarray_data_t*)pData2;
-    return (int)pFirst->nSize - (int)pSecond->nSize;
+    return (pFirst->nSize > pSecond->nSize) - (pFirst->nSize < pSecond->nSize);
 }
 
 static int XArray_CompareKey(const void *pData1, const void *pData2, void *pCtx)
@@ -392,7 +392,7 @@ static int XArray_CompareKey(const void *pData1, const void *pData2, void *pCtx)
     (void)pCtx;
     xarray_data_t *pFirst = (xarray_data_t*)pData1;
     xarray_data_t *pSecond = (xarray_data_t*)pData2;
-    return (int)pFirst->nKey - (int)pSecond->nKey;
+    return (pFirst->nKey > pSecond->nKey) - (pFirst->nKey < pSecond->nKey);
 }
 
 int XArray_Partitioning(xarray_t *pArr, xarray_comparator_t compare, void *pCtx, int nStart, int nFinish)
@@ -443,7 +443,7 @@ void XArray_BubbleSort(xarray_t *pArr, xarray_comparator_t compare, void *pCtx)
     {
         for (j = 0 ; j < pArr->nUsed-i-1; j++) 
         {
-            if (compare((void*)pArr->pData[j], (void*)pArr->pData[j+1], pCtx))
+            if (compare((void*)pArr->pData[j], (void*)pArr->pData[j+1], pCtx) > 0)
             {
                 xarray_data_t *pData = pArr->pData[j];
                 pArr->pData[j] = pArr->pData[j+1];
-- 
2.43.0


From 48f67378077de555d9b5ff94d838236cc221c8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:00 +0000
Subject: [PATCH 22/93] fix: archives of objects defining no global symbols
 were left empty

---
 src/cjit-ar.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index bd75a0d..6b0e58c 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -89,7 +89,7 @@ int tcc_tool_ar(TCCState *s1, int argc, char **argv) {
     int symtabsize = 0;//, strtabsize = 0;
     char *anames = NULL;
     int *afpos = NULL;
-    int istrlen, strpos = 0, fpos = 0, funccnt = 0, funcmax, hofs;
+    int istrlen, strpos = 0, fpos = 0, funccnt = 0, funcmax, hofs, members;
     char tfile[260], stmp[20];
     char *file, *name;
     int ret = 2;
@@ -220,6 +220,9 @@ finish:
         fread(buf, fsize, 1, fi);
         fclose(fi);
 
+        // don't use symbols found in previous members
+        symtab = strtab = NULL;
+        symtabsize = 0;
         // elf header
         ehdr = (ElfW(Ehdr) *)buf;
         if (ehdr->e_ident[4] != ELFCLASSW)
@@ -297,6 +300,7 @@ finish:
         i_obj++;
         fpos += (fsize + sizeof(arhdro));
     }
+    members = fpos;
     hofs = 8 + sizeof(arhdr) + strpos + (funccnt+1) * sizeof(int);
     fpos = 0;
     if ((hofs & 1)) // align
@@ -304,7 +308,7 @@ finish:
     // write header
     fwrite(ARMAG, 8, 1, fh);
     // create an empty archive
-    if (!funccnt) {
+    if (!members) {
         ret = 0;
         goto the_end;
     }
@@ -315,7 +319,8 @@ finish:
     for (i=1; i<=funccnt; i++)
         afpos[i] = le2belong(afpos[i] + hofs);
     fwrite(afpos, (funccnt+1) * sizeof(int), 1, fh);
-    fwrite(anames, strpos, 1, fh);
+    if (strpos)
+        fwrite(anames, strpos, 1, fh);
     if (fpos)
         fwrite("", 1, 1, fh);
     // write objects
-- 
2.43.0


From acf9475ed4a4f0e1a8e5d060ad88798c3a6a306e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:00 +0000
Subject: [PATCH 23/93] fix: archive members of odd size were not padded to
 even offsets

---
 src/cjit-ar.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index 6b0e58c..7b1adc0 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -153,6 +153,8 @@ no_ar:
 	    fsize = atoi(arhdr.ar_size);
 	    buf = tcc_malloc(fsize + 1);
 	    fread(buf, fsize, 1, fh);
+	    if (fsize & 1) // members start at even offsets
+		fgetc(fh);
 	    if (strcmp(arhdr.ar_name,"/") && strcmp(arhdr.ar_name,"/SYM64/")) {
 		if (e > p && e[-1] == '/')
 		    e[-1] = '\0';
@@ -296,6 +298,8 @@ finish:
         memcpy(&arhdro.ar_size, stmp, 10);
         fwrite(&arhdro, sizeof(arhdro), 1, fo);
         fwrite(buf, fsize, 1, fo);
+        if (fsize & 1) // members start at even offsets
+            fputc('\n', fo), fsize++;
         tcc_free(buf);
         i_obj++;
         fpos += (fsize + sizeof(arhdro));
-- 
2.43.0


From f7ca85ce2fb53f45d626060554d0f077e818d505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 24/93] fix: constructors, destructors and main's third
 argument were missing when running in memory

---
 src/cjit.c | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index a598f6d..be7fa3f 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -584,6 +584,28 @@ int cjit_link(CJITState *cjit) {
 	return( tcc_output_file(tcc(cjit),cjit->output_filename));
 }
 
+#if !defined(WINDOWS)
+extern char **environ;
+// destructors of the application, run at exit in reverse order
+static void (**fini_start)(void) = NULL;
+static void (**fini_end)(void) = NULL;
+static void run_destructors(void) {
+	while(fini_end > fini_start) (*--fini_end)();
+}
+// run the constructors of the application like done for executables
+static void run_constructors(CJITState *cjit, int argc, char **argv) {
+	void (**init)(int, char**, char**);
+	void (**init_end)(int, char**, char**);
+	init = tcc_get_symbol(tcc(cjit), "__init_array_start");
+	init_end = tcc_get_symbol(tcc(cjit), "__init_array_end");
+	fini_start = tcc_get_symbol(tcc(cjit), "__fini_array_start");
+	fini_end = tcc_get_symbol(tcc(cjit), "__fini_array_end");
+	if(fini_start && fini_end) atexit(run_destructors);
+	if(init && init_end)
+		for(; init < init_end; init++) (*init)(argc, argv, environ);
+}
+#endif
+
 int cjit_exec(CJITState *cjit, int argc, char **argv) {
 	if(!cjit->done_setup) {
 		_err("%s: no source code found",__func__);
@@ -604,7 +626,7 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 		}
 	}
 	int res = 1;
-	int (*_ep)(int, char**);
+	int (*_ep)(int, char**, char**);
 	// relocate the code (link symbols)
 #if defined(SHAREDTCC)
 	if (tcc_relocate(tcc(cjit), TCC_RELOCATE_AUTO) < 0) {
@@ -633,7 +655,7 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 		fclose(fd);
 	}
 	cjit->done_exec = true;
-	res = _ep(argc, argv);
+	res = _ep(argc, argv, NULL);
 	return(res);
 #else // we assume anything else but WINDOWS has fork()
 	pid_t pid;
@@ -655,7 +677,8 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 				_exit(255);
 			}
 		}
-		res = _ep(argc, argv);
+		run_constructors(cjit, argc, argv);
+		res = _ep(argc, argv, environ);
 		exit(res);
 	} else {
 		int status;
-- 
2.43.0


From 9dfa39d87d5f2af7b01ee283ee1651cd7653f8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 25/93] fix: -C crashed, passing the compiler context in place
 of cjit's

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index f1e699f..624a826 100644
--- a/src/main.c
+++ b/src/main.c
@@ -210,7 +210,7 @@ int main(int argc, char **argv) {
 		  cjit_add_library(CJIT, opt.arg);
 	  } else if (c == 'C') { // cflags compiler options
 		  if(CJIT->verbose)_err("arg cflags: %s",opt.arg);
-		  cjit_set_tcc_options(CJIT->TCC, opt.arg);
+		  cjit_set_tcc_options(CJIT, opt.arg);
 	  } else if (c == 'I') { // include paths in cflags
 		  if(CJIT->verbose)_err("arg inc: %s",opt.arg);
 		  cjit_add_include_path(CJIT, opt.arg);
-- 
2.43.0


From 127369040ee8438cfb78f5f5a6c74e91d936c5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:45 +0000
Subject: [PATCH 26/93] fix: write errors of executables and objects were
 reported as success

---
 lib/tinycc/tccelf.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index da96e3e..3f8e1e1 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -2661,7 +2661,7 @@ static int tcc_output_binary(TCCState *s1, FILE *f,
 static int tcc_write_elf_file(TCCState *s1, const char *filename, int phnum,
                               ElfW(Phdr) *phdr, int file_offset, int *sec_order)
 {
-    int fd, mode, file_type, ret;
+    int fd, mode, file_type, ret, failed;
     FILE *f;
 
     file_type = s1->output_type;
@@ -2684,7 +2684,11 @@ static int tcc_write_elf_file(TCCState *s1, const char *filename, int phnum,
         ret = tcc_output_elf(s1, f, phnum, phdr, file_offset, sec_order);
     else
         ret = tcc_output_binary(s1, f, sec_order);
-    fclose(f);
+    failed = ferror(f);
+    if (fclose(f) != 0 || failed) {
+        unlink(filename);
+        return tcc_error_noabort("could not write '%s: %s'", filename, strerror(errno));
+    }
 
     return ret;
 }
-- 
2.43.0


From cd4b65bf7d3e76b0d4ea525536877118ee7bf8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:45 +0000
Subject: [PATCH 27/93] fix: -c refused the source extensions cc, cxx and C

---
 src/cjit.c | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index be7fa3f..e19206a 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -452,6 +452,19 @@ bool cjit_add_buffer(CJITState *cjit, const char *buffer) {
 	return((res<0)?false:true);
 }
 
+// compile the file in place rather than its contents as a string, so
+// that it includes the headers found next to it. Source extensions
+// tinyCC doesn't know need the language set explicitly.
+static int compile_source(CJITState *cjit, const char *path) {
+	const char *ext = strrchr(path,'.');
+	if(!ext || strcmp(ext,".c")==0)
+		return tcc_add_file(tcc(cjit),path);
+	tcc_set_options(tcc(cjit),"-xc");
+	int res = tcc_add_file(tcc(cjit),path);
+	tcc_set_options(tcc(cjit),"-xnone");
+	return res;
+}
+
 bool cjit_add_source(CJITState *cjit, const char *path) {
 	setup;
 	size_t length;
@@ -475,18 +488,7 @@ bool cjit_add_source(CJITState *cjit, const char *path) {
 			free(tmp);
 		}
 	}
-	// compile the file in place rather than its contents as a string, so
-	// that it includes the headers found next to it. Source extensions
-	// tinyCC doesn't know need the language set explicitly.
-	const char *ext = strrchr(path,'.');
-	if(ext && strcmp(ext,".c")!=0) {
-		tcc_set_options(tcc(cjit),"-xc");
-		res = tcc_add_file(tcc(cjit),path);
-		tcc_set_options(tcc(cjit),"-xnone");
-	} else {
-		res = tcc_add_file(tcc(cjit),path);
-	}
-	if(res<0) return false;
+	if(compile_source(cjit,path)<0) return false;
 	debug("+S %s",path);
 	return true;
 }
@@ -531,7 +533,7 @@ bool cjit_compile_file(CJITState *cjit, const char *path) {
 		return false;
 	}
 	setup;
-	if(tcc_add_file(tcc(cjit), path)<0) {
+	if(compile_source(cjit, path)<0) {
 		_err("%s: error: %s",__func__, path);
 		return false;
 	}
-- 
2.43.0


From 18f831430bdd37e84bffd712ffec659f438371d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:28 +0000
Subject: [PATCH 28/93] fix: errors reading a source were taken as its end

---
 lib/tinycc/tccpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index 6f2bc17..ae92639 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -654,7 +654,7 @@ static int handle_eob(void)
 #endif
             len = read(bf->fd, bf->buffer, len);
             if (len < 0)
-                len = 0;
+                tcc_error("could not read '%s': %s", bf->filename, strerror(errno));
         } else {
             len = 0;
         }
-- 
2.43.0


From 2f4c5393562a06eb2f1f82f20d10191bed703dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:28 +0000
Subject: [PATCH 29/93] fix: shared libraries in the current directory were not
 loaded when given as input

---
 lib/tinycc/libtcc.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/libtcc.c b/lib/tinycc/libtcc.c
index 5b6606e..c272bff 100644
--- a/lib/tinycc/libtcc.c
+++ b/lib/tinycc/libtcc.c
@@ -1082,7 +1082,12 @@ ST_FUNC int tcc_add_file_internal(TCCState *s1, const char *filename, int flags)
         case AFF_BINTYPE_DYN:
             if (s1->output_type == TCC_OUTPUT_MEMORY) {
 #ifdef TCC_IS_NATIVE
-                void* dl = dlopen(filename, RTLD_GLOBAL | RTLD_LAZY);
+                /* dlopen searches names without slash elsewhere */
+                char *path = tcc_malloc(strlen(filename) + 3);
+                void* dl;
+                sprintf(path, "%s%s", strchr(filename, '/') ? "" : "./", filename);
+                dl = dlopen(path, RTLD_GLOBAL | RTLD_LAZY);
+                tcc_free(path);
                 if (dl)
                     tcc_add_dllref(s1, filename, 0)->handle = dl, ret = 0;
 #endif
-- 
2.43.0


From c0bcdb5d2b04c225f9d668546c668a26b2321f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:41 +0000
Subject: [PATCH 30/93] fix: extract members with a binary zero type flag

POSIX ustar readers take them as regular files, they were skipped
silently and success was reported
---
 src/muntar.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/muntar.c b/src/muntar.c
index 2e989c5..fc15928 100644
--- a/src/muntar.c
+++ b/src/muntar.c
@@ -114,7 +114,8 @@ static int raw_to_header(mtar_header_t *h, const mtar_raw_header_t *rh)
 	h->devmajor = (uint32_t) decodeTarOctal(rh->devmajor, sizeof(rh->devmajor));
 	h->devminor = (uint32_t) decodeTarOctal(rh->devminor, sizeof(rh->devminor));
 
-	h->type = (uint32_t) rh->type;
+	// a binary zero marks a regular file in older archives
+	h->type = rh->type ? (uint32_t) rh->type : MTAR_TREG;
 	strncpy(h->name, rh->name, sizeof(h->name));
 	h->name[ sizeof(h->name) - 1 ] = 0;
 	strncpy(h->linkname, rh->linkname, sizeof(h->linkname));
-- 
2.43.0


From d9d8f22ecf1aaf973465bb854c1f2269ea0d3f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:29 +0000
Subject: [PATCH 31/93] fix: refuse archive members with an invalid size

a size field that is not octal was decoded to any number, which
could move the reader backwards and loop forever or skip members
---
 src/muntar.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/muntar.c b/src/muntar.c
index fc15928..5f5c52d 100644
--- a/src/muntar.c
+++ b/src/muntar.c
@@ -65,7 +65,7 @@ static unsigned checksum(const mtar_raw_header_t* rh)
 }
 
 /**
- * Decode an octal field.
+ * Decode an octal field, UINT64_MAX if it is not octal.
  */
 static uint64_t decodeTarOctal(
 	const char* data,
@@ -84,6 +84,7 @@ static uint64_t decodeTarOctal(
 	/* decode the octal number */
     for (; currentPtr >= (uint8_t*) data; currentPtr--)
 	{
+        if (*currentPtr < '0' || *currentPtr > '7') return UINT64_MAX;
         sum += (uint64_t) ((*currentPtr) - 48) * currentMultiplier;
         currentMultiplier *= 8;
     }
@@ -205,6 +206,9 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 				header->name);
 			return(MTAR_EFAILURE);
 		}
+		// contents must be in the archive
+		if(header->size > tar.max - tar.iterator.cursor)
+			return(MTAR_EREADFAIL);
 		switch(header->type) {
 		case MTAR_TDIR:
 			if(header->path[0]!=0) { // subdir
@@ -219,11 +223,6 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 			strcpy(p,header->name);
 			makedir(tpath);
 			break;
-		case MTAR_TREG:
-			// contents must be in the archive
-			if(header->size > tar.max - tar.iterator.cursor)
-				return(MTAR_EREADFAIL);
-			break;
 		}
 		res = mtar_next(&tar);
 		if(res != MTAR_ESUCCESS && res != MTAR_ENULLRECORD) {
-- 
2.43.0


From 8dc734eb7c61f362a1ea8101153138f0efa5ea8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:29 +0000
Subject: [PATCH 32/93] fix: report directories that cannot be created by
 extraction

extracting a directory that could not be created was reported
as success
---
 src/muntar.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/muntar.c b/src/muntar.c
index 5f5c52d..4dad484 100644
--- a/src/muntar.c
+++ b/src/muntar.c
@@ -163,12 +163,19 @@ static int mtar_rewind(mtar_t *tar) {
 
 #if defined(_WIN32) || defined(WINDOWS)
 #include <windows.h>
+#include <sys/stat.h>
 #define makedir(path) CreateDirectory(path, NULL)
 #else
 #include <sys/stat.h>
 #define makedir(path) mkdir(path,0755)
 #endif
 
+// true if the path is a directory
+static int is_dir(const char *path) {
+	struct stat st;
+	return stat(path,&st)==0 && (st.st_mode & S_IFMT)==S_IFDIR;
+}
+
 // true if any segment of the path leads to its parent
 static int has_parent_segment(const char *p) {
 	while(*p) {
@@ -222,6 +229,12 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 			if(p-tpath+namelen>1023) return(MTAR_EOPENFAIL);
 			strcpy(p,header->name);
 			makedir(tpath);
+			if(!is_dir(tpath)) {
+				fprintf(stderr,
+					"Error creating directory: %s\n",
+					tpath);
+				return(MTAR_EWRITEFAIL);
+			}
 			break;
 		}
 		res = mtar_next(&tar);
-- 
2.43.0


From 15f7df8cc110e5c3a6881746c78ee413beeea278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:16 +0000
Subject: [PATCH 33/93] fix: refuse gzip members with bytes between data and
 trailer

the trailer must follow the last deflate block (RFC 1952)
---
 src/tinflate.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tinflate.c b/src/tinflate.c
index 9816862..9bb8f46 100644
--- a/src/tinflate.c
+++ b/src/tinflate.c
@@ -622,6 +622,11 @@ int tinf_uncompress(void *dest, unsigned int *destLen,
 		return TINF_DATA_ERROR;
 	}
 
+	/* Check that nothing follows the last block */
+	if (d.source != d.source_end) {
+		return TINF_DATA_ERROR;
+	}
+
 	*destLen = d.dest - d.dest_start;
 
 	return TINF_OK;
-- 
2.43.0


From a47fe42633eb44887a09bd478c588418dbb254de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:43 +0000
Subject: [PATCH 34/93] fix: a strong reference stays strong after a weak one

linking a unit with a weak reference after one with a strong reference
to the same undefined symbol let the build pass and the call crash
---
 lib/tinycc/tccelf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index 3f8e1e1..71b00d7 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -714,6 +714,8 @@ ST_FUNC int set_elf_sym(Section *s, addr_t value, unsigned long size,
 #endif
                 tcc_error_noabort("'%s' defined twice", name);
             }
+        } else if (shndx == SHN_UNDEF && sym_bind == STB_WEAK) {
+            /* a reference that is strong once stays so */
         } else {
             esym->st_other = other;
         do_patch:
-- 
2.43.0


From 7033f6bd9ca4232afc0bbce5d0d9dfc276498872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:43 +0000
Subject: [PATCH 35/93] fix: common objects take the largest size of their
 definitions

the first tentative definition was kept, a larger one in another unit
then overlapped the objects following it
---
 lib/tinycc/tccelf.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index 71b00d7..52a43d9 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -699,6 +699,12 @@ ST_FUNC int set_elf_sym(Section *s, addr_t value, unsigned long size,
                             && shndx != bss_section->sh_num)) {
                 /* data symbol gets precedence over common/bss */
                 goto do_patch;
+            } else if ((shndx == SHN_COMMON || shndx == bss_section->sh_num)
+                       && (esym->st_shndx == SHN_COMMON
+                           || esym->st_shndx == bss_section->sh_num)
+                       && size > esym->st_size) {
+                /* tentative definitions make one object of the largest size */
+                goto do_patch;
             } else if (shndx == SHN_COMMON || shndx == bss_section->sh_num) {
                 /* data symbol keeps precedence over common/bss */
             } else if (s->sh_flags & SHF_DYNSYM) {
-- 
2.43.0


From 260190dfb87a7d009e89f73ad72a9e77537e6b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:43 +0000
Subject: [PATCH 36/93] fix: weak references do not pull in archive members

---
 lib/tinycc/tccelf.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index 52a43d9..8358798 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -3430,6 +3430,9 @@ static int tcc_load_alacarte(TCCState *s1, int fd, int size, int entrysize)
             sym = &((ElfW(Sym) *)s->data)[sym_index];
             if(sym->st_shndx != SHN_UNDEF)
                 continue;
+            /* weak references do not pull in members */
+            if(ELFW(ST_BIND)(sym->st_info) == STB_WEAK)
+                continue;
             off = get_be(ar_index + i * entrysize, entrysize);
             len = read_ar_header(fd, off, &hdr);
             if (len <= 0 || memcmp(hdr.ar_fmag, ARFMAG, 2)) {
-- 
2.43.0


From da30f653334f2983ffcd6a5fa9fe727599d60fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:02 +0000
Subject: [PATCH 37/93] fix: objects with doubly defined symbols were accepted

---
 lib/tinycc/tccelf.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index 8358798..78a9ee0 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -3084,6 +3084,7 @@ ST_FUNC int tcc_load_object_file(TCCState *s1,
     ElfW(Shdr) *shdr, *sh;
     unsigned long size, offset, offseti;
     int i, j, nb_syms, sym_index, ret, seencompressed;
+    int nb_errors = s1->nb_errors;
     char *strsec, *strtab;
     int stab_index, stabstr_index;
     int *old_to_new_syms;
@@ -3355,7 +3356,8 @@ invalid:
         }
     }
 
-    ret = 0;
+    /* symbols defined twice are errors of this file */
+    ret = s1->nb_errors == nb_errors ? 0 : -1;
  the_end:
     tcc_free(symtab);
     tcc_free(strtab);
-- 
2.43.0


From 6454f95dfad07e0508b09f2bfda1447ffbd39381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:45 +0000
Subject: [PATCH 38/93] fix: undefined weak functions had a non-null address in
 executables

---
 lib/tinycc/tccelf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index 78a9ee0..ea1a101 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -1410,6 +1410,11 @@ redo:
 			/* dynsym isn't set for -run :-/  */
 			dynindex = get_sym_attr(s1, sym_index, 0)->dyn_index;
 			esym = (ElfW(Sym) *)s1->dynsym->data + dynindex;
+			/* a weak reference that no library defines is null */
+			if (ELFW(ST_BIND)(sym->st_info) == STB_WEAK
+			    && !find_elf_sym(s1->dynsymtab_section,
+				(char *) symtab_section->link->data + sym->st_name))
+			    continue;
 			if (dynindex
 			    && (ELFW(ST_TYPE)(esym->st_info) == STT_FUNC
 				|| (ELFW(ST_TYPE)(esym->st_info) == STT_NOTYPE
-- 
2.43.0


From 01963965e8663100fcd68da51d3a9acab9f8c8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:10 +0000
Subject: [PATCH 39/93] fix: addresses of library functions differed within an
 executable

---
 lib/tinycc/tccelf.c | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index ea1a101..0944091 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -870,6 +870,9 @@ static void sort_syms(TCCState *s1, Section *s)
 /* See: https://flapenguin.me/elf-dt-gnu-hash */
 #define	ELFCLASS_BITS (PTR_SIZE * 8)
 
+/* defined, or a function of a library with the address of a PLT entry */
+#define HAS_ADDRESS(p) ((p)->st_shndx != SHN_UNDEF || (p)->st_value)
+
 static Section *create_gnu_hash(TCCState *s1)
 {
     int nb_syms, i, ndef, nbuckets, symoffset, bloom_size, bloom_shift;
@@ -887,7 +890,7 @@ static Section *create_gnu_hash(TCCState *s1)
     ndef = 0;
     p = (ElfW(Sym) *)dynsym->data;
     for(i = 0; i < nb_syms; i++, p++)
-        ndef += p->st_shndx != SHN_UNDEF;
+        ndef += HAS_ADDRESS(p);
 
     /* calculate gnu hash sizes and fill header */
     nbuckets = ndef / 4 + 1;
@@ -942,7 +945,7 @@ static void update_gnu_hash(TCCState *s1, Section *gnu_hash)
     p = (ElfW(Sym) *)dynsym->data;
     q = new_syms;
     for(i = 0; i < nb_syms; i++, p++) {
-        if (p->st_shndx == SHN_UNDEF) {
+        if (!HAS_ADDRESS(p)) {
             old_to_new_syms[i] = q - new_syms;
             *q++ = *p;
         }
@@ -971,7 +974,7 @@ static void update_gnu_hash(TCCState *s1, Section *gnu_hash)
 
     p = (ElfW(Sym) *)dynsym->data;
     for(i = 0; i < nb_syms; i++, p++)
-        if (p->st_shndx != SHN_UNDEF) {
+        if (HAS_ADDRESS(p)) {
 	    int bucket = hash[i] % nbuckets;
 
 	    if (buck[bucket].first == -1)
@@ -1418,8 +1421,13 @@ redo:
 			if (dynindex
 			    && (ELFW(ST_TYPE)(esym->st_info) == STT_FUNC
 				|| (ELFW(ST_TYPE)(esym->st_info) == STT_NOTYPE
-				    && ELFW(ST_TYPE)(sym->st_info) == STT_FUNC)))
+				    && ELFW(ST_TYPE)(sym->st_info) == STT_FUNC))) {
+			    /* its address is that of the PLT entry, for
+			       everyone: see relocate_plt_addresses() */
+			    if (s1->output_type == TCC_OUTPUT_EXE)
+				esym->st_value = 1;
 			    goto jmp_slot;
+			}
 		    }
                 } else if (sym->st_shndx == SHN_ABS) {
                     if (sym->st_value == 0) /* from tcc_add_btstub() */
@@ -2812,6 +2820,24 @@ static Section *create_bsd_note_section(TCCState *s1,
 
 static void alloc_sec_names(TCCState *s1, int is_obj);
 
+/* Give functions of libraries whose address is taken in the executable the
+   address of their PLT entry, so that it is the same for everyone. */
+static void relocate_plt_addresses(TCCState *s1)
+{
+    int i;
+    struct sym_attr *attr;
+    ElfW(Sym) *esym;
+
+    for (i = 0; i < s1->nb_sym_attrs; i++) {
+        attr = s1->sym_attrs + i;
+        if (!attr->dyn_index || !attr->plt_offset)
+            continue;
+        esym = (ElfW(Sym) *)s1->dynsym->data + attr->dyn_index;
+        if (esym->st_shndx == SHN_UNDEF && esym->st_value)
+            esym->st_value = s1->plt->sh_addr + attr->plt_offset;
+    }
+}
+
 /* Output an elf, coff or binary file */
 /* XXX: suppress unneeded sections */
 static int elf_output_file(TCCState *s1, const char *filename)
@@ -2947,6 +2973,7 @@ static int elf_output_file(TCCState *s1, const char *filename)
                 relocate_plt(s1);
             /* relocate symbols in .dynsym now that final addresses are known */
             relocate_syms(s1, s1->dynsym, 2);
+            relocate_plt_addresses(s1);
         }
 
         /* if building executable or DLL, then relocate each section
-- 
2.43.0


From 868abc294cb79502365006e54b81c5f4802ba285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:41 +0000
Subject: [PATCH 40/93] fix: normalizing a path in place read segments already
 overwritten

---
 src/cwalk.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/cwalk.c b/src/cwalk.c
index e4c9a49..f32fba2 100755
--- a/src/cwalk.c
+++ b/src/cwalk.c
@@ -605,8 +605,9 @@ static void cwk_path_fix_root(char *buffer, size_t buffer_size, size_t length)
 static size_t cwk_path_join_and_normalize_multiple(const char **paths,
   char *buffer, size_t buffer_size)
 {
-  size_t pos;
+  size_t pos, removed;
   bool absolute, has_segment_output;
+  enum cwk_segment_type type;
   struct cwk_segment_joined sj;
 
   // We initialize the position after the root, which should get us started.
@@ -630,11 +631,23 @@ static size_t cwk_path_join_and_normalize_multiple(const char **paths,
   // Let's assume that we don't have any segment output for now. We will toggle
   // this flag once there is some output.
   has_segment_output = false;
+  removed = 0;
 
   do {
     // Check whether we have to drop this segment because of resolving a
-    // relative path or because it is a CWK_CURRENT segment.
-    if (cwk_path_segment_will_be_removed(&sj, absolute)) {
+    // relative path or because it is a CWK_CURRENT segment. A CWK_BACK segment
+    // is dropped with the normal segment it removes, which we have to count
+    // since the previous segments are overwritten when the buffer is the path.
+    type = cwk_path_get_segment_type(&sj.segment);
+    if (type == CWK_BACK && !absolute) {
+      if (removed > 0) {
+        --removed;
+        continue;
+      }
+    } else if (cwk_path_segment_will_be_removed(&sj, absolute)) {
+      if (type == CWK_NORMAL) {
+        ++removed;
+      }
       continue;
     }
 
-- 
2.43.0


From 9c1cb28b6c261ef72dcc0ba0704e756fc448ceec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:45 +0000
Subject: [PATCH 41/93] fix: archives with a path of more than 255 bytes
 overflowed a buffer

---
 src/cjit-ar.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index 7b1adc0..4a53996 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -90,7 +90,7 @@ int tcc_tool_ar(TCCState *s1, int argc, char **argv) {
     char *anames = NULL;
     int *afpos = NULL;
     int istrlen, strpos = 0, fpos = 0, funccnt = 0, funcmax, hofs, members;
-    char tfile[260], stmp[20];
+    char *tfile = NULL, stmp[20];
     char *file, *name;
     int ret = 2;
     const char *ops_conflict = "habdiopN";  // unsupported but destructive if ignored.
@@ -190,6 +190,7 @@ finish:
     }
     created_file = argv[i_lib];
 
+    tfile = tcc_malloc(strlen(argv[i_lib]) + 5);
     sprintf(tfile, "%s.tmp", argv[i_lib]);
     if ((fo = fopen(tfile, "wb+")) == NULL)
     {
@@ -347,6 +348,7 @@ the_end:
         remove(created_file);
     if (fo)
         fclose(fo), remove(tfile);
+    tcc_free(tfile);
     return ret;
 }
 
-- 
2.43.0


From ff6ba021afa18599a17c1c2c176708a36f8f6317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:01 +0000
Subject: [PATCH 42/93] fix: write errors of archives and extracted members
 were ignored

---
 src/cjit-ar.c | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index 4a53996..74b5457 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -169,8 +169,15 @@ no_ar:
 		        tcc_free(buf);
 			goto finish;
 		    }
-		    fwrite(buf, fsize, 1, fo);
-		    fclose(fo);
+		    i = fwrite(buf, 1, fsize, fo) != fsize;
+		    i |= fclose(fo) != 0;
+		    if (i)
+		    {
+			fprintf(stderr, "cjit-ar: can't write file %s\n",
+				arhdr.ar_name);
+		        tcc_free(buf);
+			goto finish;
+		    }
 		    /* ignore date/uid/gid/mode */
 		}
 	    }
@@ -333,17 +340,26 @@ finish:
     fsize = ftell(fo);
     fseek(fo, 0, SEEK_SET);
     buf = tcc_malloc(fsize + 1);
-    fread(buf, fsize, 1, fo);
-    fwrite(buf, fsize, 1, fh);
+    i = fread(buf, 1, fsize, fo) == fsize && fsize == members;
+    i &= fwrite(buf, 1, fsize, fh) == fsize;
     tcc_free(buf);
-    ret = 0;
+    if (i)
+        ret = 0;
+    else
+        fprintf(stderr, "cjit-ar: can't write file %s\n", created_file);
 the_end:
     if (anames)
         tcc_free(anames);
     if (afpos)
         tcc_free(afpos);
-    if (fh)
-        fclose(fh);
+    if (fh) {
+        i = ferror(fh);
+        i |= fclose(fh) != 0;
+        if (i && ret == 0) {
+            fprintf(stderr, "cjit-ar: can't write file %s\n", created_file);
+            ret = 2;
+        }
+    }
     if (created_file && ret != 0)
         remove(created_file);
     if (fo)
-- 
2.43.0


From 1de2aebb7398a206e85410ea8367d9fe203db117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:01 +0000
Subject: [PATCH 43/93] fix: truncated archives were listed and extracted as if
 complete

---
 src/cjit-ar.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index 74b5457..90fe4a7 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -151,8 +151,13 @@ no_ar:
 	    *e = '\0';
 	    arhdr.ar_size[sizeof arhdr.ar_size-1] = 0;
 	    fsize = atoi(arhdr.ar_size);
+	    if (fsize < 0)
+		goto no_ar;
 	    buf = tcc_malloc(fsize + 1);
-	    fread(buf, fsize, 1, fh);
+	    if (fread(buf, 1, fsize, fh) != fsize) {
+		tcc_free(buf);
+		goto no_ar;
+	    }
 	    if (fsize & 1) // members start at even offsets
 		fgetc(fh);
 	    if (strcmp(arhdr.ar_name,"/") && strcmp(arhdr.ar_name,"/SYM64/")) {
-- 
2.43.0


From 32088e431236262e7802221fbf6df3fe6c911a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:01 +0000
Subject: [PATCH 44/93] fix: thread-local and indirect functions were left out
 of the archive index

---
 src/cjit-ar.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index 90fe4a7..43d7e0c 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -276,12 +276,8 @@ finish:
             {
                 sym = (ElfW(Sym) *) (symtab + i * sizeof(ElfW(Sym)));
                 if (sym->st_shndx &&
-                    (sym->st_info == 0x10
-                    || sym->st_info == 0x11
-                    || sym->st_info == 0x12
-                    || sym->st_info == 0x20
-                    || sym->st_info == 0x21
-                    || sym->st_info == 0x22
+                    (ELFW(ST_BIND)(sym->st_info) == STB_GLOBAL
+                    || ELFW(ST_BIND)(sym->st_info) == STB_WEAK
                     )) {
                     //printf("symtab: %2Xh %4Xh %2Xh %s\n", sym->st_info, sym->st_size, sym->st_shndx, strtab + sym->st_name);
                     istrlen = strlen(strtab + sym->st_name)+1;
-- 
2.43.0


From 4ce78a556fb9332f810003c18a838fd284e23e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:36 +0000
Subject: [PATCH 45/93] fix: a library name linked to a directory was taken for
 an empty linker script

---
 src/elflinker.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/elflinker.c b/src/elflinker.c
index 2905493..f0c7adf 100644
--- a/src/elflinker.c
+++ b/src/elflinker.c
@@ -145,6 +145,11 @@ static char *new_solve_symlink(const char *path) {
             fail(path);
 			return NULL;
         }
+        // may lead to something that is not a file
+        if (stat(reallib, &statbuf) == -1 || !S_ISREG(statbuf.st_mode)) {
+            free(reallib);
+            reallib = NULL;
+        }
     } else if (S_ISREG(statbuf.st_mode)) {
 		reallib = malloc(strlen(path)+1); // ALLOC
 		strcpy(reallib,path);
-- 
2.43.0


From 631401cb69952df767a8146529312574b3566215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:32 +0000
Subject: [PATCH 46/93] fix: x.f++ of a narrow unsigned bit-field did not
 promote to int

---
 lib/tinycc/tccgen.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 57bc493..371a1d1 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -3787,6 +3787,8 @@ ST_FUNC void vstore(void)
 /* post defines POST/PRE add. c is the token ++ or -- */
 ST_FUNC void inc(int post, int c)
 {
+    int t = vtop->type.t;
+
     test_lvalue();
     vdup(); /* save lvalue */
     if (post) {
@@ -3798,8 +3800,13 @@ ST_FUNC void inc(int post, int c)
     vpushi(c - TOK_MID); 
     gen_op('+');
     vstore(); /* store value */
-    if (post)
+    if (post) {
         vpop(); /* if post op, return saved value */
+        /* which promotes to int as the narrow bit-field it was read from */
+        if ((t & VT_BITFIELD) && (t & VT_BTYPE) != VT_LLONG
+            && BIT_SIZE(t) < 32)
+            vtop->type.t = VT_INT;
+    }
 }
 
 ST_FUNC CString* parse_mult_str (const char *msg)
-- 
2.43.0


From 7a70b43196019cd103c04912da4b51af047e19f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:32 +0000
Subject: [PATCH 47/93] fix: typeof (x, s.f) of a narrow unsigned bit-field did
 not promote to int

---
 lib/tinycc/tccgen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 371a1d1..a2ed680 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -6578,7 +6578,8 @@ ST_FUNC void gexpr(void)
         convert_parameter_type(&vtop->type);
 
         /* make builtin_constant_p((1,2)) return 0 (like on gcc) */
-        if ((vtop->r & VT_VALMASK) == VT_CONST && nocode_wanted && !CONST_WANTED)
+        if ((vtop->r & (VT_VALMASK | VT_LVAL)) == VT_CONST
+            && nocode_wanted && !CONST_WANTED)
             gv(RC_TYPE(vtop->type.t));
     }
 }
-- 
2.43.0


From 85748bdbda1afb25cd82ea43fa38cea6a0c0a232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:32 +0000
Subject: [PATCH 48/93] fix: !a, a && b and a || b had type _Bool where the
 operand had

---
 lib/tinycc/tccgen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index a2ed680..e55c232 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -5627,6 +5627,7 @@ ST_FUNC void unary(void)
         next();
         unary();
         gen_test_zero(TOK_EQ);
+        vtop->type.t = VT_INT;
         break;
     case '~':
         next();
@@ -6403,6 +6404,7 @@ static void expr_landor(int op)
         nocode_wanted -= f;
     } else {
         gvtst_set(i, t);
+        vtop->type.t = VT_INT;
     }
 }
 
-- 
2.43.0


From b89398d0c141f34893e40eb7b6fc47db35c806f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 49/93] fix: switch on an assignment to a char or short
 compared the untruncated value

---
 lib/tinycc/tccgen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index e55c232..d143f35 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -7153,6 +7153,8 @@ again:
         skip('(');
         gexpr();
         skip(')');
+        if (vtop->r & VT_MUSTCAST)
+            force_charshort_cast();
         sw->sv = *vtop--; /* save switch value */
         a = 0;
         b = gjmp(0); /* jump to first case */
-- 
2.43.0


From 32a0a6f32fc88fcf6f059bc8bca5f58b1f89300c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 50/93] fix: a goto was lost when another one to its label left
 a cleanup scope

---
 lib/tinycc/tccgen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index d143f35..29a5ebb 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -7272,8 +7272,8 @@ again:
 		    for (pcl = s->next; pcl; pcl = pcl->prev)
 		      gsym(pcl->jnext);
 		    sym_pop(&s->next, NULL, 0);
-		} else
-		  gsym(s->jnext);
+		}
+		gsym(s->jnext);
             } else {
                 s = label_push(&global_label_stack, t, LABEL_DEFINED);
             }
-- 
2.43.0


From 2b52ccdd0cb473cf4f42344c31873ccbe406f974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 51/93] fix: #if arithmetic was done in int instead of intmax_t

---
 lib/tinycc/tcc.h    | 1 +
 lib/tinycc/tccgen.c | 7 +++----
 lib/tinycc/tccpp.c  | 8 ++++++--
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/tinycc/tcc.h b/lib/tinycc/tcc.h
index 7bae6af..d9c8f58 100644
--- a/lib/tinycc/tcc.h
+++ b/lib/tinycc/tcc.h
@@ -1512,6 +1512,7 @@ ST_FUNC void indir(void);
 ST_FUNC void unary(void);
 ST_FUNC void gexpr(void);
 ST_FUNC int expr_const(void);
+ST_FUNC int64_t expr_const64(void);
 #if defined CONFIG_TCC_BCHECK || defined TCC_TARGET_C67
 ST_FUNC Sym *get_sym_ref(CType *type, Section *sec, unsigned long offset, unsigned long size);
 #endif
diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 29a5ebb..05b5c2e 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -146,7 +146,6 @@ static int decl(int l);
 static void expr_eq(void);
 static void vpush_type_size(CType *type, int *a);
 static int is_compatible_unqualified_types(CType *type1, CType *type2);
-static inline int64_t expr_const64(void);
 static void vpush64(int ty, unsigned long long v);
 static void vpush(CType *type);
 static int gvtst(int inv, int t);
@@ -2957,8 +2956,8 @@ static int combine_types(CType *dest, SValue *op1, SValue *op2, int op)
             (t2 & (VT_BTYPE | VT_UNSIGNED | VT_BITFIELD)) == (VT_LLONG | VT_UNSIGNED))
           type.t |= VT_UNSIGNED;
     } else {
-        /* integer operations */
-        type.t = VT_INT | (VT_LONG & (t1 | t2));
+        /* integer operations (in '#if' all types act as [u]intmax_t) */
+        type.t = (pp_expr ? VT_LLONG : VT_INT) | (VT_LONG & (t1 | t2));
         /* convert to unsigned if it does not fit in an integer */
         if ((t1 & (VT_BTYPE | VT_UNSIGNED | VT_BITFIELD)) == (VT_INT | VT_UNSIGNED) ||
             (t2 & (VT_BTYPE | VT_UNSIGNED | VT_BITFIELD)) == (VT_INT | VT_UNSIGNED))
@@ -6595,7 +6594,7 @@ static void expr_const1(void)
 }
 
 /* parse an integer constant and return its value. */
-static inline int64_t expr_const64(void)
+ST_FUNC int64_t expr_const64(void)
 {
     int64_t c;
     expr_const1();
diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index ae92639..c27eefc 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -1519,13 +1519,13 @@ static int expr_preprocess(TCCState *s1)
     /* now evaluate C constant expression */
     begin_macro(str, 1);
     next();
-    c = expr_const();
+    c = expr_const64() != 0;
     if (tok != TOK_EOF)
         tcc_error("...");
     pp_expr = 0;
     end_macro();
     tok = t; /* restore LF or EOF */
-    return c != 0;
+    return c;
 }
 
 ST_FUNC void pp_error(CString *cs)
@@ -2496,6 +2496,10 @@ static void parse_number(const char *p)
             }
         }
 
+        /* in '#if' all types act as [u]intmax_t */
+        if (pp_expr)
+            lcount = 2;
+
         /* Determine if it needs 64 bits and/or unsigned in order to fit */
         if (ucount == 0 && b == 10) {
             if (lcount <= (LONG_SIZE == 4)) {
-- 
2.43.0


From 0e24db0cb4296b1b846a7cd6917aa3879096a703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:02 +0000
Subject: [PATCH 52/93] fix: layout of bit-fields that fill their type in
 packed structs, and of unnamed ones

---
 lib/tinycc/tccgen.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 05b5c2e..8c79153 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -4113,11 +4113,17 @@ static void struct_layout(CType *type, AttributeDef *ad)
 //#define BF_DEBUG
 
     for (f = type->ref->next; f; f = f->next) {
-        if (f->type.t & VT_BITFIELD)
-            bit_size = BIT_SIZE(f->type.t);
-        else
-            bit_size = -1;
         size = type_size(&f->type, &align);
+        bit_size = -1;
+        if (f->type.t & VT_BITFIELD) {
+            bit_size = BIT_SIZE(f->type.t);
+            /* no need for bit fields that fill their type */
+            if (bit_size == size * 8 && !f->a.packed && !ad->a.packed
+                && !(pcc && (f->v & SYM_FIRST_ANOM))) {
+                f->type.t &= ~VT_STRUCT_MASK;
+                bit_size = -1;
+            }
+        }
         a = f->a.aligned ? 1 << (f->a.aligned - 1) : 0;
         packed = 0;
 
@@ -4229,6 +4235,11 @@ static void struct_layout(CType *type, AttributeDef *ad)
 		        | (bit_pos << VT_STRUCT_SHIFT);
 	    bit_pos += bit_size;
 	}
+	/* unnamed bit-fields do not influence the alignment, not even in
+	   unions or when they fill their type */
+	if (pcc && (f->v & SYM_FIRST_ANOM)
+	    && is_integer_btype(f->type.t & VT_BTYPE))
+	    align = 1;
 	if (align > maxalign)
 	    maxalign = align;
 
@@ -4522,12 +4533,10 @@ do_decl:
                         if (bit_size > bsize) {
                             tcc_error("width of '%s' exceeds its type",
                                   get_tok_str(v, NULL));
-                        } else if (bit_size == bsize
-                                    && !ad.a.packed && !ad1.a.packed) {
-                            /* no need for bit fields */
-                            ;
                         } else if (bit_size == 64) {
-                            tcc_error("field width 64 not implemented");
+                            /* no need for bit fields */
+                            if (ad.a.packed || ad1.a.packed)
+                                tcc_error("field width 64 not implemented");
                         } else {
                             type1.t = (type1.t & ~VT_STRUCT_MASK)
                                 | VT_BITFIELD
-- 
2.43.0


From 12249b777f4661783c5c7d702daa898dd9a068f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:02 +0000
Subject: [PATCH 53/93] fix: struct arguments aligned to more than 16 were
 passed and read at different places

---
 lib/tinycc/lib/va_list.c | 2 ++
 lib/tinycc/x86_64-gen.c  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/lib/tinycc/lib/va_list.c b/lib/tinycc/lib/va_list.c
index 1fb5512..f4f14fb 100644
--- a/lib/tinycc/lib/va_list.c
+++ b/lib/tinycc/lib/va_list.c
@@ -31,6 +31,8 @@ void *__va_arg(__builtin_va_list ap,
 {
     size = (size + 7) & ~7;
     align = (align + 7) & ~7;
+    if (align > 16) /* the stack is not aligned better than that */
+        align = 16;
     switch ((enum __va_arg_type)arg_type) {
     case __va_gen_reg:
         if (ap->gp_offset + size <= 48) {
diff --git a/lib/tinycc/x86_64-gen.c b/lib/tinycc/x86_64-gen.c
index 4f46efc..0e671ed 100644
--- a/lib/tinycc/x86_64-gen.c
+++ b/lib/tinycc/x86_64-gen.c
@@ -1142,6 +1142,8 @@ static X86_64_Mode classify_x86_64_arg(CType *ty, CType *ret, int *psize, int *p
         size = type_size(ty, &align);
         *psize = (size + 7) & ~7;
         *palign = (align + 7) & ~7;
+        if (*palign > 16) /* the stack is not aligned better than that */
+            *palign = 16;
         *reg_count = 0; /* avoid compiler warning */
 
         if (size > 16) {
-- 
2.43.0


From 27c0aaaaefc85612a230430028fcef99a14e1a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:03 +0000
Subject: [PATCH 54/93] fix: initializers: nested and anonymous designators,
 overriding braces, trailing commas, mixed strings

---
 lib/tinycc/tccgen.c | 103 +++++++++++++++++++++++++++++++-------------
 1 file changed, 72 insertions(+), 31 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 8c79153..008c78d 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -7415,7 +7415,9 @@ static void init_putz(init_params *p, unsigned long c, int size)
 {
     init_assert(p, c + size);
     if (p->sec) {
-        /* nothing to do because globals are already set to zero */
+        /* globals are already set to zero, unless initialized before */
+        if (!NODATA_WANTED && size > 0)
+            memset(p->sec->data + c, 0, size);
     } else {
         vpush_helper_func(TOK_memset);
         vseti(VT_LOCAL, c);
@@ -7432,6 +7434,7 @@ static void init_putz(init_params *p, unsigned long c, int size)
 #define DIF_SIZE_ONLY 2
 #define DIF_HAVE_ELEM 4
 #define DIF_CLEAR     8
+#define DIF_DESIG     16 /* at the rest of a designator */
 
 /* delete relocations for specified range c ... c + size. Unfortunatly
    in very special cases, relocations may occur unordered */
@@ -7473,11 +7476,12 @@ static int decl_designator(init_params *p, CType *type, unsigned long c,
                            Sym **cur_field, int flags, int al)
 {
     Sym *s, *f;
-    int index, index_last, align, l, nb_elems, elem_size;
+    int index, index_last, align, l, nb_elems, elem_size, cumofs;
     unsigned long corig = c;
 
     elem_size = 0;
     nb_elems = 1;
+    flags &= ~DIF_DESIG;
 
     if (flags & DIF_HAVE_ELEM)
         goto no_designator;
@@ -7490,7 +7494,7 @@ static int decl_designator(init_params *p, CType *type, unsigned long c,
     }
 
     /* NOTE: we only support ranges for last designator */
-    while (nb_elems == 1 && (tok == '[' || tok == '.')) {
+    if (tok == '[' || tok == '.') {
         if (tok == '[') {
             if (!(type->t & VT_ARRAY))
                 expect("array type");
@@ -7505,28 +7509,41 @@ static int decl_designator(init_params *p, CType *type, unsigned long c,
             decl_design_flex(p, s, index_last);
             if (index < 0 || index_last >= s->c || index_last < index)
 	        tcc_error("index exceeds array bounds or range is empty");
-            if (cur_field)
-		(*cur_field)->c = index_last;
+            (*cur_field)->c = index_last;
             type = pointed_type(type);
             elem_size = type_size(type, &align);
             c += index * elem_size;
             nb_elems = index_last - index + 1;
         } else {
-            int cumofs;
             next();
             l = tok;
         struct_field:
             next();
-	    f = find_field(type, l, &cumofs);
-            if (cur_field)
-                *cur_field = f;
-	    type = &f->type;
-            c += cumofs;
+            find_field(type, l, &cumofs);
+            /* the member itself, or the anonymous one that contains it */
+            for (f = type->ref->next; f->v != (l | SYM_FIELD); f = f->next)
+                if ((f->type.t & VT_BTYPE) == VT_STRUCT
+                    && f->v >= (SYM_FIRST_ANOM | SYM_FIELD)
+                    && find_field(&f->type, l | SYM_FIELD, &cumofs))
+                    break;
+            *cur_field = f;
+            type = &f->type;
+            c += f->c;
+            if (f->v != (l | SYM_FIELD)) {
+                if (tok == ':')
+                    next(), unget_tok('=');
+                unget_tok(l), unget_tok('.');
+            }
         }
-        cur_field = NULL;
-    }
-    if (!cur_field) {
-        if (tok == '=') {
+        if (nb_elems == 1 && (tok == '[' || tok == '.')) {
+            /* the rest of the designator is for an element of this one,
+               which then goes on as a list without braces */
+            if (tok == '[' && !(type->t & VT_ARRAY))
+                expect("array type");
+            if (tok == '.' && (type->t & VT_BTYPE) != VT_STRUCT)
+                expect("struct or union");
+            flags |= DIF_DESIG;
+        } else if (tok == '=') {
             next();
         } else if (!gnu_ext) {
 	    expect("=");
@@ -7562,8 +7579,9 @@ static int decl_designator(init_params *p, CType *type, unsigned long c,
        than once.  In that case we need to delete possibly already
        existing relocations. */
     if (!(flags & DIF_SIZE_ONLY) && c - corig < al) {
-        decl_design_delrels(p->sec, c, elem_size * nb_elems);
-        flags &= ~DIF_CLEAR; /* mark stack dirty too */
+        if (nb_elems > 1)
+            decl_design_delrels(p->sec, c, elem_size * nb_elems);
+        flags &= ~DIF_CLEAR; /* mark it dirty */
     }
 
     decl_initializer(p, type, c, flags & ~DIF_FIRST);
@@ -7800,7 +7818,7 @@ static void decl_initializer(init_params *p, CType *type, unsigned long c, int f
     if (debug_modes && !(flags & DIF_SIZE_ONLY) && !p->sec)
         tcc_debug_line(tcc_state), tcc_tcov_check_line (tcc_state, 1);
 
-    if (!(flags & DIF_HAVE_ELEM) && tok != '{' &&
+    if (!(flags & (DIF_HAVE_ELEM | DIF_DESIG)) && tok != '{' &&
 	/* In case of strings we have special handling for arrays, so
 	   don't consume them as initializer value (which would commit them
 	   to some anonymous symbol).  */
@@ -7844,9 +7862,9 @@ static void decl_initializer(init_params *p, CType *type, unsigned long c, int f
             ) || (tok == TOK_STR && (t1->t & VT_BTYPE) == VT_BYTE)) {
 	    len = 0;
             cstr_reset(&initstr);
-            if (size1 != (tok == TOK_STR ? 1 : sizeof(nwchar_t)))
-              tcc_error("unhandled string literal merging");
             while (tok == TOK_STR || tok == TOK_LSTR) {
+                if (tok == TOK_LSTR && size1 == 1)
+                  tcc_error("unhandled string literal merging");
                 if (initstr.size)
                   initstr.size -= size1;
                 if (tok == TOK_STR)
@@ -7854,7 +7872,12 @@ static void decl_initializer(init_params *p, CType *type, unsigned long c, int f
                 else
                   len += tokc.str.size / sizeof(nwchar_t);
                 len--;
-                cstr_cat(&initstr, tokc.str.data, tokc.str.size);
+                if (tok == TOK_STR && size1 != 1) {
+                    /* joined to a wide string */
+                    for (i = 0; i < tokc.str.size; i++)
+                        cstr_wccat(&initstr, ((unsigned char *)tokc.str.data)[i]);
+                } else
+                    cstr_cat(&initstr, tokc.str.data, tokc.str.size);
                 next();
             }
             if (tok != ')' && tok != '}' && tok != ',' && tok != ';'
@@ -7880,6 +7903,8 @@ static void decl_initializer(init_params *p, CType *type, unsigned long c, int f
                     init_assert(p, c + nb);
                     if (!NODATA_WANTED)
                       memcpy(p->sec->data + c, initstr.data, nb);
+                    if (!(flags & (DIF_FIRST | DIF_CLEAR)))
+                      init_putz(p, c + nb, n - nb);
                 } else {
                     for(i=0;i<n;i++) {
                         if (i >= nb) {
@@ -7901,6 +7926,8 @@ static void decl_initializer(init_params *p, CType *type, unsigned long c, int f
                     }
                 }
             }
+            if (!no_oblock && tok == ',')
+                next();
         } else {
 
           do_init_array:
@@ -7908,9 +7935,13 @@ static void decl_initializer(init_params *p, CType *type, unsigned long c, int f
 	    f = &indexsym;
 
           do_init_list:
-            /* zero memory once in advance */
-            if (!(flags & (DIF_CLEAR | DIF_SIZE_ONLY))) {
-                init_putz(p, c, n*size1);
+            /* zero memory once in advance: a list in braces replaces what
+               was stored before, one without only gives its elements */
+            if (!no_oblock && !(flags & (DIF_CLEAR | DIF_SIZE_ONLY))) {
+                if (!(flags & DIF_FIRST))
+                    decl_design_delrels(p->sec, c, n*size1);
+                if (!(flags & DIF_FIRST) || !p->sec)
+                    init_putz(p, c, n*size1);
                 flags |= DIF_CLEAR;
             }
 
@@ -7921,19 +7952,19 @@ static void decl_initializer(init_params *p, CType *type, unsigned long c, int f
             decl_design_flex(p, s, len);
 	    while (tok != '}' || (flags & DIF_HAVE_ELEM)) {
 		len = decl_designator(p, type, c, &f, flags, len);
-		flags &= ~DIF_HAVE_ELEM;
+		flags &= ~(DIF_HAVE_ELEM | DIF_DESIG);
 		if (type->t & VT_ARRAY) {
 		    ++indexsym.c;
-		    /* special test for multi dimensional arrays (may not
-		       be strictly correct if designators are used at the
-		       same time) */
-		    if (no_oblock && len >= n*size1)
+		    /* special test for multi dimensional arrays */
+		    if (no_oblock && indexsym.c >= n)
 		        break;
 		} else {
 		    if (s->type.t == VT_UNION)
 		        f = NULL;
-		    else
+		    else do /* skip bitfield padding */
 		        f = f->next;
+		    while (f && (f->v & SYM_FIRST_ANOM)
+			   && is_integer_btype(f->type.t & VT_BTYPE));
 		    if (no_oblock && f == NULL)
 		        break;
 		}
@@ -7941,6 +7972,11 @@ static void decl_initializer(init_params *p, CType *type, unsigned long c, int f
 		if (tok == '}')
 		    break;
 		skip(',');
+		/* a designator belongs to the list in braces */
+		if (no_oblock && (tok == '.' || tok == '[')) {
+		    unget_tok(',');
+		    break;
+		}
 	    }
         }
         if (!no_oblock)
@@ -7970,6 +8006,8 @@ static void decl_initializer(init_params *p, CType *type, unsigned long c, int f
           skip(';');
         next();
         decl_initializer(p, type, c, flags & ~DIF_HAVE_ELEM);
+        if (tok == ',')
+            next();
         skip('}');
 
     } else one_elem: if ((flags & DIF_SIZE_ONLY)) {
@@ -8000,8 +8038,11 @@ static void decl_initializer(init_params *p, CType *type, unsigned long c, int f
             && btype_size(type->t & VT_BTYPE) /* not for fp constants */
             )
             vpop();
-        else
+        else {
+            if (!(flags & (DIF_FIRST | DIF_CLEAR)) && !(type->t & VT_BITFIELD))
+                decl_design_delrels(p->sec, c, type_size(type, &align1));
             init_putv(p, type, c);
+        }
     }
 }
 
-- 
2.43.0


From 7ecb61eae150c61a6f737e6dd4836421bf5043ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:40 +0000
Subject: [PATCH 55/93] fix: x86_64: pass structures with unaligned members,
 float arrays and long double unions as the ABI says

---
 lib/tinycc/x86_64-gen.c | 82 +++++++++++++++++++++++++++++------------
 1 file changed, 58 insertions(+), 24 deletions(-)

diff --git a/lib/tinycc/x86_64-gen.c b/lib/tinycc/x86_64-gen.c
index 0e671ed..14fef2a 100644
--- a/lib/tinycc/x86_64-gen.c
+++ b/lib/tinycc/x86_64-gen.c
@@ -1071,7 +1071,8 @@ typedef enum X86_64_Mode {
   x86_64_mode_memory,
   x86_64_mode_integer,
   x86_64_mode_sse,
-  x86_64_mode_x87
+  x86_64_mode_x87,
+  x86_64_mode_x87up
 } X86_64_Mode;
 
 static X86_64_Mode classify_x86_64_merge(X86_64_Mode a, X86_64_Mode b)
@@ -1086,20 +1087,55 @@ static X86_64_Mode classify_x86_64_merge(X86_64_Mode a, X86_64_Mode b)
         return x86_64_mode_memory;
     else if ((a == x86_64_mode_integer) || (b == x86_64_mode_integer))
         return x86_64_mode_integer;
-    else if ((a == x86_64_mode_x87) || (b == x86_64_mode_x87))
+    else if ((a >= x86_64_mode_x87) || (b >= x86_64_mode_x87))
         return x86_64_mode_memory;
     else
         return x86_64_mode_sse;
 }
 
-static X86_64_Mode classify_x86_64_inner(CType *ty)
+/* merge the classes of an object at offset 'off' into those of the
+   eightbytes of the type it is part of */
+static void classify_x86_64_inner(CType *ty, int off, X86_64_Mode *modes)
 {
     X86_64_Mode mode;
+    int size, align, i, n;
     Sym *f;
-    
+
+    if (ty->t & VT_BITFIELD) {
+        n = BIT_SIZE(ty->t);
+        i = off * 8 + BIT_POS(ty->t);
+        for (n += i; i < n; i = (i | 63) + 1)
+            modes[i >> 6] = classify_x86_64_merge(modes[i >> 6], x86_64_mode_integer);
+        return;
+    }
+
+    if (ty->t & VT_ARRAY) {
+        size = type_size(&ty->ref->type, &align);
+        for (i = 0; i < ty->ref->c; i++)
+            classify_x86_64_inner(&ty->ref->type, off + i * size, modes);
+        return;
+    }
+
+    mode = x86_64_mode_integer;
     switch (ty->t & VT_BTYPE) {
-    case VT_VOID: return x86_64_mode_none;
-    
+    case VT_VOID:
+        return;
+
+    case VT_STRUCT:
+        for (f = ty->ref->next; f; f = f->next)
+            classify_x86_64_inner(&f->type, off + f->c, modes);
+        return;
+
+    case VT_FLOAT:
+    case VT_DOUBLE:
+        mode = x86_64_mode_sse;
+        break;
+
+    case VT_LDOUBLE:
+        modes[1] = classify_x86_64_merge(modes[1], x86_64_mode_x87up);
+        mode = x86_64_mode_x87;
+        break;
+
     case VT_INT:
     case VT_BYTE:
     case VT_SHORT:
@@ -1107,29 +1143,20 @@ static X86_64_Mode classify_x86_64_inner(CType *ty)
     case VT_BOOL:
     case VT_PTR:
     case VT_FUNC:
-        return x86_64_mode_integer;
-    
-    case VT_FLOAT:
-    case VT_DOUBLE: return x86_64_mode_sse;
-    
-    case VT_LDOUBLE: return x86_64_mode_x87;
-      
-    case VT_STRUCT:
-        f = ty->ref;
+        break;
 
-        mode = x86_64_mode_none;
-        for (f = f->next; f; f = f->next)
-            mode = classify_x86_64_merge(mode, classify_x86_64_inner(&f->type));
-        
-        return mode;
+    default:
+        assert(0);
     }
-    assert(0);
-    return 0;
+    /* what is not aligned is passed in memory */
+    if (off & (type_size(ty, &align) - 1))
+        mode = x86_64_mode_memory;
+    modes[off >> 3] = classify_x86_64_merge(modes[off >> 3], mode);
 }
 
 static X86_64_Mode classify_x86_64_arg(CType *ty, CType *ret, int *psize, int *palign, int *reg_count)
 {
-    X86_64_Mode mode;
+    X86_64_Mode mode, modes[2];
     int size, align, ret_t = 0;
     
     if (ty->t & (VT_BITFIELD|VT_ARRAY)) {
@@ -1149,7 +1176,14 @@ static X86_64_Mode classify_x86_64_arg(CType *ty, CType *ret, int *psize, int *p
         if (size > 16) {
             mode = x86_64_mode_memory;
         } else {
-            mode = classify_x86_64_inner(ty);
+            modes[0] = modes[1] = x86_64_mode_none;
+            classify_x86_64_inner(ty, 0, modes);
+            if (modes[0] == x86_64_mode_x87 && modes[1] == x86_64_mode_x87up)
+                mode = x86_64_mode_x87;
+            else if (modes[1] == x86_64_mode_x87up)
+                mode = x86_64_mode_memory;
+            else /* both eightbytes get the same kind of register */
+                mode = classify_x86_64_merge(modes[0], modes[1]);
             switch (mode) {
             case x86_64_mode_integer:
                 if (size > 8) {
-- 
2.43.0


From 1b07ccf5b645a64275e9c7c605e3a0306c4f2334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:40 +0000
Subject: [PATCH 56/93] fix: x86_64: return the address of a structure result
 in rax

---
 lib/tinycc/tccgen.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 008c78d..4be3d2b 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -6651,6 +6651,12 @@ static void gfunc_return(CType *func_type)
             vswap();
             /* copy structure value to pointer */
             vstore();
+#ifdef TCC_TARGET_X86_64
+            /* and return the pointer */
+            vset(&type, VT_LOCAL | VT_LVAL, func_vc);
+            gv(RC_IRET);
+            vtop--;
+#endif
         } else {
             /* returning structure packed into registers */
             int size, addr, align, rc, n;
-- 
2.43.0


From 9b43d5b111fde4cbffbf4c54eaec077bc756fbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:40 +0000
Subject: [PATCH 57/93] fix: x86_64: va_arg of a structure of floats keeps the
 last vector register for later arguments

---
 lib/tinycc/lib/va_list.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lib/tinycc/lib/va_list.c b/lib/tinycc/lib/va_list.c
index f4f14fb..13b7e2c 100644
--- a/lib/tinycc/lib/va_list.c
+++ b/lib/tinycc/lib/va_list.c
@@ -42,16 +42,14 @@ void *__va_arg(__builtin_va_list ap,
         goto use_overflow_area;
 
     case __va_float_reg:
-        if (ap->fp_offset < 128 + 48) {
+        if (ap->fp_offset + 2 * size <= 128 + 48) {
             ap->fp_offset += 16;
             if (size == 8)
                 return ap->reg_save_area + ap->fp_offset - 16;
-            if (ap->fp_offset < 128 + 48) {
-                memcpy(ap->reg_save_area + ap->fp_offset - 8,
-                       ap->reg_save_area + ap->fp_offset, 8);
-                ap->fp_offset += 16;
-                return ap->reg_save_area + ap->fp_offset - 32;
-            }
+            memcpy(ap->reg_save_area + ap->fp_offset - 8,
+                   ap->reg_save_area + ap->fp_offset, 8);
+            ap->fp_offset += 16;
+            return ap->reg_save_area + ap->fp_offset - 32;
         }
         goto use_overflow_area;
 
-- 
2.43.0


From b5df55a2d9abaf4c38e02a6a588d00157be717bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:01 +0000
Subject: [PATCH 58/93] fix: a directory is not an include file

---
 lib/tinycc/libtcc.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/tinycc/libtcc.c b/lib/tinycc/libtcc.c
index c272bff..13c3bdc 100644
--- a/lib/tinycc/libtcc.c
+++ b/lib/tinycc/libtcc.c
@@ -62,6 +62,9 @@
 
 #define TCC_SEM_IMPL 1
 #include "tcc.h"
+#ifndef _WIN32
+# include <sys/stat.h> /* fstat() */
+#endif
 
 /********************************************************/
 /* global variables */
@@ -725,6 +728,16 @@ ST_FUNC int tcc_open(TCCState *s1, const char *filename)
     int fd = _tcc_open(s1, filename);
     if (fd < 0)
         return -1;
+#ifndef _WIN32
+    {
+        /* a directory is not an include file */
+        struct stat st;
+        if (0 == fstat(fd, &st) && S_ISDIR(st.st_mode)) {
+            close(fd);
+            return -1;
+        }
+    }
+#endif
     tcc_open_bf(s1, filename, 0);
     file->fd = fd;
     return 0;
-- 
2.43.0


From 9a6e9728b696dbd5df3d68395ff5cfac90451c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:41 +0000
Subject: [PATCH 59/93] fix: -c looks for quoted headers beside every source,
 as a run does

---
 src/cjit.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index e19206a..4ec3874 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -456,6 +456,17 @@ bool cjit_add_buffer(CJITState *cjit, const char *buffer) {
 // that it includes the headers found next to it. Source extensions
 // tinyCC doesn't know need the language set explicitly.
 static int compile_source(CJITState *cjit, const char *path) {
+	{ // if inside a dir then add dir to includes too
+		size_t dirname;
+		cwk_path_get_dirname(path,&dirname);
+		if(dirname) {
+			char *tmp = malloc(dirname+1);
+			strncpy(tmp,path,dirname);
+			tmp[dirname] = 0x0;
+			tcc_add_include_path(tcc(cjit),tmp);
+			free(tmp);
+		}
+	}
 	const char *ext = strrchr(path,'.');
 	if(!ext || strcmp(ext,".c")==0)
 		return tcc_add_file(tcc(cjit),path);
@@ -477,17 +488,6 @@ bool cjit_add_source(CJITState *cjit, const char *path) {
 		_err("Encoding is not yet supported, execution aborted.");
 		return false;
 	}
-	{ // if inside a dir then add dir to includes too
-		size_t dirname;
-		cwk_path_get_dirname(path,&dirname);
-		if(dirname) {
-			char *tmp = malloc(dirname+1);
-			strncpy(tmp,path,dirname);
-			tmp[dirname] = 0x0;
-			tcc_add_include_path(tcc(cjit),tmp);
-			free(tmp);
-		}
-	}
 	if(compile_source(cjit,path)<0) return false;
 	debug("+S %s",path);
 	return true;
-- 
2.43.0


From 16a0e7756160ca7f7f229a9613fae7df12461396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:14 +0000
Subject: [PATCH 60/93] fix: cleanup attribute without a function name crashed
 the compiler

---
 lib/tinycc/tccgen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 4be3d2b..96be2d4 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -3865,6 +3865,8 @@ redo:
 	    Sym *s;
 
 	    skip('(');
+	    if (tok < TOK_UIDENT)
+	        expect("function name");
 	    s = sym_find(tok);
 	    if (!s) {
 	        tcc_warning_c(warn_implicit_function_declaration)(
-- 
2.43.0


From 550f42da2eb176bb732a0ce0a199ca64c2299d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:35 +0000
Subject: [PATCH 61/93] fix: an error in #if left the next session's link error
 to be printed as one of #if, crashing

---
 lib/tinycc/libtcc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tinycc/libtcc.c b/lib/tinycc/libtcc.c
index 13c3bdc..0293c73 100644
--- a/lib/tinycc/libtcc.c
+++ b/lib/tinycc/libtcc.c
@@ -610,7 +610,7 @@ static void error1(int mode, const char *fmt, va_list ap)
         cstr_printf(&cs, "tcc: ");
     }
     cstr_printf(&cs, mode == ERROR_WARN ? "warning: " : "error: ");
-    if (pp_expr > 1)
+    if (s1->error_set_jmp_enabled && pp_expr > 1) /* parsing an #if */
         pp_error(&cs); /* special handler for preprocessor expression errors */
     else
         cstr_vprintf(&cs, fmt, ap);
-- 
2.43.0


From 4de8c2e99ba97147c7fa93bae9c420c0fa9694f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:39 +0000
Subject: [PATCH 62/93] fix: x86_64: converting to long double lost the long
 double already on the FPU stack

---
 lib/tinycc/x86_64-gen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/x86_64-gen.c b/lib/tinycc/x86_64-gen.c
index 14fef2a..2a4ae23 100644
--- a/lib/tinycc/x86_64-gen.c
+++ b/lib/tinycc/x86_64-gen.c
@@ -2157,7 +2157,7 @@ void gen_cvt_ftof(int t)
             o(0x5a0f); /* cvtps2pd */
             o(0xc0 + REG_VALUE(vtop->r)*9);
         } else if (tbt == VT_LDOUBLE) {
-            save_reg(RC_ST0);
+            save_reg(TREG_ST0);
             /* movss %xmm0,-0x10(%rsp) */
             o(0x110ff3);
             o(0x44 + REG_VALUE(vtop->r)*8);
@@ -2173,7 +2173,7 @@ void gen_cvt_ftof(int t)
             o(0x5a0f66); /* cvtpd2ps */
             o(0xc0 + REG_VALUE(vtop->r)*9);
         } else if (tbt == VT_LDOUBLE) {
-            save_reg(RC_ST0);
+            save_reg(TREG_ST0);
             /* movsd %xmm0,-0x10(%rsp) */
             o(0x110ff2);
             o(0x44 + REG_VALUE(vtop->r)*8);
-- 
2.43.0


From 22a9f3fd2a9a6285d12af748d03e7e62593aea01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:39 +0000
Subject: [PATCH 63/93] fix: a type name was accepted as an operand

---
 lib/tinycc/tccgen.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 96be2d4..52c3e64 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -5995,6 +5995,9 @@ special_math_val:
             s = external_global_sym(t, &func_old_type);
         }
 
+        if (s->type.t & VT_TYPEDEF)
+            tcc_error("unexpected type name '%s'", get_tok_str(t, NULL));
+
         r = s->r;
         /* A symbol that has a register is a local register variable,
            which starts out as VT_LOCAL value.  */
-- 
2.43.0


From a63573045a18c3c5a8c9f5ddd7ba3f6d20014d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:39 +0000
Subject: [PATCH 64/93] fix: suffixes lL and lul, hexadecimal and binary
 constants without digits were accepted

---
 lib/tinycc/tccpp.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index c27eefc..30b4826 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -2293,6 +2293,8 @@ static void parse_number(const char *p)
         *q++ = ch;
         ch = *p++;
     }
+    if (b != 10 && q == token_buf && ch != '.')
+        tcc_error("invalid number");
     if (ch == '.' ||
         ((ch == 'e' || ch == 'E') && b == 10) ||
         ((ch == 'p' || ch == 'P') && (b == 16 || b == 2))) {
@@ -2325,6 +2327,8 @@ static void parse_number(const char *p)
             frac_bits = 0;
             if (ch == '.') {
                 ch = *p++;
+                if (token_buf[0] == '\0' && !isnum(ch) && !(toup(ch) >= 'A' && toup(ch) <= 'F'))
+                    tcc_error("invalid number");
                 while (1) {
                     t = ch;
                     if (t >= 'a' && t <= 'f') {
@@ -2482,7 +2486,7 @@ static void parse_number(const char *p)
             if (t == 'L') {
                 if (lcount >= 2)
                     tcc_error("three 'l's in integer constant");
-                if (lcount && *(p - 1) != ch)
+                if (lcount && *(p - 2) != ch)
                     tcc_error("incorrect integer suffix: %s", p1);
                 lcount++;
                 ch = *p++;
-- 
2.43.0


From 66755c4f7cdbf24c472659b8e32872f2d78c2285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:21 +0000
Subject: [PATCH 65/93] fix: hexadecimal floating constants lost their leading
 digits, precision and exponent range

---
 lib/tinycc/tccpp.c | 46 +++++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index 30b4826..0654651 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -2221,19 +2221,26 @@ static void parse_string(const char *s, int len)
     }
 }
 
-/* we use 64 bit numbers */
-#define BN_SIZE 2
+/* we use 96 bit numbers */
+#define BN_SIZE 3
 
-/* bn = (bn << shift) | or_val */
-static void bn_lshift(unsigned int *bn, int shift, int or_val)
+/* bn = (bn << shift) | or_val; when there is no room left, the bits
+   are dropped (and the lowest bit tells if one was set) and the return
+   value is the number of dropped bits */
+static int bn_lshift(unsigned int *bn, int shift, int or_val)
 {
     int i;
     unsigned int v;
+    if (bn[BN_SIZE - 1] >> (32 - shift)) {
+        bn[0] |= or_val != 0;
+        return shift;
+    }
     for(i=0;i<BN_SIZE;i++) {
         v = bn[i];
         bn[i] = (v << shift) | or_val;
         or_val = v >> (32 - shift);
     }
+    return 0;
 }
 
 static void bn_zero(unsigned int *bn)
@@ -2251,6 +2258,8 @@ static void parse_number(const char *p)
     int b, t, shift, frac_bits, s, exp_val, ch;
     char *q;
     unsigned int bn[BN_SIZE];
+    unsigned long long m;
+    long double ld;
     double d;
 
     /* number */
@@ -2310,6 +2319,7 @@ static void parse_number(const char *p)
             else 
                 shift = 1;
             bn_zero(bn);
+            frac_bits = 0;
             q = token_buf;
             while (1) {
                 t = *q++;
@@ -2322,9 +2332,8 @@ static void parse_number(const char *p)
                 } else {
                     t = t - '0';
                 }
-                bn_lshift(bn, shift, t);
+                frac_bits -= bn_lshift(bn, shift, t);
             }
-            frac_bits = 0;
             if (ch == '.') {
                 ch = *p++;
                 if (token_buf[0] == '\0' && !isnum(ch) && !(toup(ch) >= 'A' && toup(ch) <= 'F'))
@@ -2342,8 +2351,7 @@ static void parse_number(const char *p)
                     }
                     if (t >= b)
                         tcc_error("invalid digit");
-                    bn_lshift(bn, shift, t);
-                    frac_bits += shift;
+                    frac_bits += shift - bn_lshift(bn, shift, t);
                     ch = *p++;
                 }
             }
@@ -2361,29 +2369,33 @@ static void parse_number(const char *p)
             if (ch < '0' || ch > '9')
                 expect("exponent digits");
             while (ch >= '0' && ch <= '9') {
-                exp_val = exp_val * 10 + ch - '0';
+                if (exp_val < 10000000)
+                    exp_val = exp_val * 10 + ch - '0';
                 ch = *p++;
             }
-            exp_val = exp_val * s;
+            exp_val = exp_val * s - frac_bits;
             
-            /* now we can generate the number */
-            /* XXX: should patch directly float number */
-            d = (double)bn[1] * 4294967296.0 + (double)bn[0];
-            d = ldexp(d, exp_val - frac_bits);
+            /* now we can generate the number: 64 significant bits, and
+               the rest which only matters for rounding */
+            if (bn[0] | bn[1] | bn[2])
+                while (!(bn[2] >> 31))
+                    bn_lshift(bn, 1, 0), exp_val--;
+            m = (unsigned long long)bn[2] << 32 | bn[1];
+            ld = ldexpl((long double)m + ldexpl(bn[0], -32), exp_val + 32);
+            d = ldexpl((long double)(m | (bn[0] != 0)), exp_val + 32);
             t = toup(ch);
             if (t == 'F') {
                 ch = *p++;
                 tok = TOK_CFLOAT;
                 /* float : should handle overflow */
-                tokc.f = (float)d;
+                tokc.f = ldexpl((long double)(m | (bn[0] != 0)), exp_val + 32);
             } else if (t == 'L') {
                 ch = *p++;
                 tok = TOK_CLDOUBLE;
 #ifdef TCC_USING_DOUBLE_FOR_LDOUBLE
                 tokc.d = d;
 #else
-                /* XXX: not large enough */
-                tokc.ld = (long double)d;
+                tokc.ld = ld;
 #endif
             } else {
                 tok = TOK_CDOUBLE;
-- 
2.43.0


From 85bd4bd14ef814857a57211a373f6d220bc13a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:35 +0000
Subject: [PATCH 66/93] fix: x86_64: a long double was rounded to double before
 its conversion to an integer

---
 lib/tinycc/x86_64-gen.c | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/lib/tinycc/x86_64-gen.c b/lib/tinycc/x86_64-gen.c
index 2a4ae23..ed29b89 100644
--- a/lib/tinycc/x86_64-gen.c
+++ b/lib/tinycc/x86_64-gen.c
@@ -2209,16 +2209,35 @@ void gen_cvt_ftoi(int t)
     int ft, bt, size, r;
     ft = vtop->type.t;
     bt = ft & VT_BTYPE;
-    if (bt == VT_LDOUBLE) {
-        gen_cvt_ftof(VT_DOUBLE);
-        bt = VT_DOUBLE;
-    }
-
-    gv(RC_FLOAT);
     if (t != VT_INT)
         size = 8;
     else
         size = 4;
+    if (bt == VT_LDOUBLE) {
+        gv(RC_ST0);
+        r = get_reg(RC_INT);
+        o(0xf0247cd9); /* fnstcw -0x10(%rsp) */
+        orex(0, 0, r, 0xb70f); /* movzwl -0x10(%rsp), r */
+        o(0x44 + REG_VALUE(r)*8);
+        o(0xf024);
+        orex(0, r, 0, 0x81); /* or $0xc00, r (round toward zero) */
+        o(0xc8 + REG_VALUE(r));
+        gen_le32(0xc00);
+        o(0x66); /* mov r, -0xe(%rsp) */
+        orex(0, 0, r, 0x89);
+        o(0x44 + REG_VALUE(r)*8);
+        o(0xf224);
+        o(0xf2246cd9); /* fldcw -0xe(%rsp) */
+        o(0xf8247cdf); /* fistpll -0x8(%rsp) */
+        o(0xf0246cd9); /* fldcw -0x10(%rsp) */
+        orex(size == 8, 0, r, 0x8b); /* mov -0x8(%rsp), r */
+        o(0x44 + REG_VALUE(r)*8);
+        o(0xf824);
+        vtop->r = r;
+        return;
+    }
+
+    gv(RC_FLOAT);
 
     r = get_reg(RC_INT);
     if (bt == VT_FLOAT) {
-- 
2.43.0


From 063472cf2135ec494cea3fc5c8495fc94d80d602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:39 +0000
Subject: [PATCH 67/93] fix: messages about a directive that ends its file
 without newline named the line before

---
 lib/tinycc/tccpp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index 0654651..b431f10 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -2600,6 +2600,8 @@ static void next_nomacro(void)
             TCCState *s1 = tcc_state;
             if (!(tok_flags & TOK_FLAG_BOL)) {
                 /* add implicit newline */
+                if (parse_flags & PARSE_FLAG_LINEFEED)
+                    file->line_num++;
                 goto maybe_newline;
             } else if (!(parse_flags & PARSE_FLAG_PREPROCESS)) {
                 tok = TOK_EOF;
-- 
2.43.0


From fe4fe68b31e074b2d69a04b338b388ad00ba75f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:39 +0000
Subject: [PATCH 68/93] fix: a line marker with level numbers set the line one
 too high

---
 lib/tinycc/tccpp.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index b431f10..45ee151 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -1946,10 +1946,15 @@ ST_FUNC void preprocess(int is_bof)
                 goto _line_err;
             next_nomacro();
         }
+        if (tok != TOK_LINEFEED) {
+            /* skip optional level number, the newline is still to be counted */
+            skip_to_eol(0);
+            --n;
+        }
         if (file->fd > 0)
             total_lines += file->line_num - n;
         file->line_num = n;
-        goto ignore; /* skip optional level number */
+        goto the_end;
 
     case TOK_ERROR:
     case TOK_WARNING:
-- 
2.43.0


From 0973613f704f0aca861635ec010d8dc5d7e584a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:39 +0000
Subject: [PATCH 69/93] fix: #line refused macros and took numbers with leading
 zeros as octal

---
 lib/tinycc/tccpp.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index 45ee151..0d4d39b 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -1928,23 +1928,33 @@ ST_FUNC void preprocess(int is_bof)
         }
         break;
     case TOK_LINE:
-        next_nomacro();
+        /* macros are expanded, numbers and strings left as they are */
+        parse_flags &= ~(PARSE_FLAG_TOK_NUM | PARSE_FLAG_TOK_STR);
+        next();
         if (tok != TOK_PPNUM)
     _line_err:
             tcc_error("wrong #line format");
     case TOK_PPNUM:
-        parse_number(tokc.str.data);
-        n = tokc.i;
-        next_nomacro();
+        parse_flags &= ~(PARSE_FLAG_TOK_NUM | PARSE_FLAG_TOK_STR);
+        /* a decimal number, also with leading zeros */
+        n = strtoul(tokc.str.data, &q, 10);
+        if (*q) {
+            if (parse_flags & PARSE_FLAG_ASM_FILE)
+                goto ignore;
+            goto _line_err;
+        }
+        next();
         if (tok != TOK_LINEFEED) {
             if (tok == TOK_PPSTR && tokc.str.data[0] == '"') {
-                tokc.str.data[tokc.str.size - 2] = 0;
-                tccpp_putfile(tokc.str.data + 1);
+                if (tokc.str.size - 3 >= sizeof(buf))
+                    goto _line_err;
+                pstrncpy(buf, tokc.str.data + 1, tokc.str.size - 3);
+                tccpp_putfile(buf);
             } else if (parse_flags & PARSE_FLAG_ASM_FILE)
                 goto ignore;
             else
                 goto _line_err;
-            next_nomacro();
+            next();
         }
         if (tok != TOK_LINEFEED) {
             /* skip optional level number, the newline is still to be counted */
-- 
2.43.0


From ae994aeec7f396e1af299c27fbe33893b9c01d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:46 +0000
Subject: [PATCH 70/93] fix: a floating or pointer constant was taken as an
 integer constant expression

---
 lib/tinycc/tccgen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 52c3e64..caacc41 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -6614,6 +6614,8 @@ ST_FUNC int64_t expr_const64(void)
     expr_const1();
     if ((vtop->r & (VT_VALMASK | VT_LVAL | VT_SYM | VT_NONCONST)) != VT_CONST)
         expect("constant expression");
+    if (!is_integer_btype(vtop->type.t & VT_BTYPE))
+        expect("integer constant expression");
     c = vtop->c.i;
     vpop();
     return c;
-- 
2.43.0


From c08eddc53a1f9c871d5703b2a35c14f90d693b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:18 +0000
Subject: [PATCH 71/93] fix: a switch on a value that is not an integer was
 accepted

---
 lib/tinycc/tccgen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index caacc41..dfb81ca 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -7174,6 +7174,8 @@ again:
         skip('(');
         gexpr();
         skip(')');
+        if (!is_integer_btype(vtop->type.t & VT_BTYPE))
+            tcc_error("switch value not an integer");
         if (vtop->r & VT_MUSTCAST)
             force_charshort_cast();
         sw->sv = *vtop--; /* save switch value */
-- 
2.43.0


From ae61259ca2b78f2b688b1871e461844cfd1b4dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:50 +0000
Subject: [PATCH 72/93] fix: duplicate case values went unnoticed in a switch
 that is never reached

---
 lib/tinycc/tccgen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index dfb81ca..510c5bb 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -7187,8 +7187,6 @@ again:
         gsym(b);
         prev_scope_s(&o);
 
-        if (sw->nocode_wanted)
-            goto skip_switch;
         if (sw->sv.type.t & VT_UNSIGNED)
             qsort(sw->p, sw->n, sizeof(void*), case_cmpu);
         else
@@ -7198,6 +7196,8 @@ again:
                 ? (uint64_t)sw->p[b - 1]->v2 >= (uint64_t)sw->p[b]->v1
                 : sw->p[b - 1]->v2 >= sw->p[b]->v1)
                 tcc_error("duplicate case value");
+        if (sw->nocode_wanted)
+            goto skip_switch;
         vpushv(&sw->sv);
         gv(RC_INT);
         d = 0, gcase(sw->p, sw->n, &d);
-- 
2.43.0


From e8bb6f55e6a5d3d7b1b926f0dd924939bb0eea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:19 +0000
Subject: [PATCH 73/93] fix: enumerators of an untagged enum could be declared
 twice in a block

---
 lib/tinycc/tccgen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 510c5bb..c005294 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -4393,6 +4393,8 @@ static void struct_decl(CType *type, int u)
     type1.ref = NULL;
     /* we put an undefined size for struct/union */
     s = sym_push(v | SYM_STRUCT, &type1, 0, -1);
+    if (u == VT_ENUM)
+        s->sym_scope = local_scope; /* see sym_scope() */
     s->r = 0; /* default alignment is zero as gcc */
 do_decl:
     type->t = s->type.t;
-- 
2.43.0


From 9ae757023ef90286fed4eff5040571fade107fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:49 +0000
Subject: [PATCH 74/93] fix: conversions between pointers and floating types
 were accepted

---
 lib/tinycc/tccgen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index c005294..33c5137 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -3207,7 +3207,8 @@ again:
         sbt_bt = sbt & VT_BTYPE;
         if (dbt_bt == VT_VOID)
             goto done;
-        if (sbt_bt == VT_VOID) {
+        if (sbt_bt == VT_VOID
+            || (sf && dbt_bt == VT_PTR) || (df && sbt_bt == VT_PTR)) {
 error:
             cast_error(&vtop->type, type);
         }
-- 
2.43.0


From 141434d1712f8d489796a807deeb672ebaec0135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:22 +0000
Subject: [PATCH 75/93] fix: a pointer could be subtracted from 0 and negated

---
 lib/tinycc/tccgen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 33c5137..fe399ea 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -2867,6 +2867,8 @@ static int combine_types(CType *dest, SValue *op1, SValue *op2, int op)
           if (!is_integer_btype(bt1 == VT_PTR ? bt2 : bt1))
             ret = 0;
         }
+        else if (op == '-' && bt1 != VT_PTR)
+            ret = 0;
         /* http://port70.net/~nsz/c/c99/n1256.html#6.5.15p6 */
         /* If one is a null ptr constant the result type is the other.  */
         else if (is_null_pointer (op2)) type = *type1;
-- 
2.43.0


From 1d565c28aa77abb7b0d85892e1df0b2b193429f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:53 +0000
Subject: [PATCH 76/93] fix: a shift by a floating amount was accepted

---
 lib/tinycc/tccgen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index fe399ea..ff8c0fa 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -3064,6 +3064,8 @@ op_err:
             && op_class != CMP_OP) {
             goto op_err;
         }
+        if (op_class == SHIFT_OP && !is_integer_btype(bt2))
+            goto op_err;
     std_op:
         t = t2 = combtype.t;
         /* special case for shifts and long long: we keep the shift as
-- 
2.43.0


From b043e6308169924bbec21adbc6ddced0201f3f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:33 +0000
Subject: [PATCH 77/93] fix: repeated signed/unsigned, and signed/unsigned with
 types that have no sign, were accepted

---
 lib/tinycc/tccgen.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index ff8c0fa..d16ae84 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -4707,7 +4707,10 @@ static int parse_btype(CType *type, AttributeDef *ad, int ignore_label)
             goto basic_type;
         case TOK_DOUBLE:
             if ((t & (VT_BTYPE|VT_LONG)) == VT_LONG) {
+                if (bt != -1)
+                    goto tmbt;
                 t = (t & ~(VT_BTYPE|VT_LONG)) | VT_LDOUBLE;
+                bt = VT_LDOUBLE;
             } else {
                 u = VT_DOUBLE;
                 goto basic_type;
@@ -4761,8 +4764,8 @@ static int parse_btype(CType *type, AttributeDef *ad, int ignore_label)
         case TOK_SIGNED1:
         case TOK_SIGNED2:
         case TOK_SIGNED3:
-            if ((t & (VT_DEFSIGN|VT_UNSIGNED)) == (VT_DEFSIGN|VT_UNSIGNED))
-                tcc_error("signed and unsigned modifier");
+            if (t & VT_DEFSIGN)
+                tcc_error("more than one sign modifier");
             t |= VT_DEFSIGN;
             next();
             typespec_found = 1;
@@ -4775,8 +4778,8 @@ static int parse_btype(CType *type, AttributeDef *ad, int ignore_label)
             next();
             break;
         case TOK_UNSIGNED:
-            if ((t & (VT_DEFSIGN|VT_UNSIGNED)) == VT_DEFSIGN)
-                tcc_error("signed and unsigned modifier");
+            if (t & VT_DEFSIGN)
+                tcc_error("more than one sign modifier");
             t |= VT_DEFSIGN | VT_UNSIGNED;
             next();
             typespec_found = 1;
@@ -4866,6 +4869,9 @@ the_end:
     }
     /* VT_LONG is used just as a modifier for VT_INT / VT_LLONG */
     bt = t & (VT_BTYPE|VT_LONG);
+    if ((t & VT_DEFSIGN) && bt != VT_LONG
+        && (bt == VT_BOOL || !is_integer_btype(bt & VT_BTYPE)))
+        tcc_error("sign modifier on a type without sign");
     if (bt == VT_LONG)
         t |= LONG_SIZE == 8 ? VT_LLONG : VT_INT;
 #ifdef TCC_USING_DOUBLE_FOR_LDOUBLE
-- 
2.43.0


From e98feaea9b1b8fb4978249af09633d04a50240f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:26 +0000
Subject: [PATCH 78/93] fix: the scope of enumerators was taken from their
 value when global symbols are declared

---
 lib/tinycc/tccgen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index d16ae84..a2f8c6f 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -730,7 +730,7 @@ ST_FUNC Sym *global_identifier_push(int v, int t, int c)
         ps = &table_ident[v - TOK_IDENT]->sym_identifier;
         /* modify the top most local identifier, so that sym_identifier will
            point to 's' when popped; happens when called from inline asm */
-        while (*ps != NULL && (*ps)->sym_scope)
+        while (*ps != NULL && sym_scope(*ps))
             ps = &(*ps)->prev_tok;
         s->prev_tok = *ps;
         *ps = s;
@@ -1312,7 +1312,7 @@ static Sym *external_sym(int v, CType *type, int r, AttributeDef *ad)
 
     /* look for global symbol */
     s = sym_find(v);
-    while (s && s->sym_scope)
+    while (s && sym_scope(s))
         s = s->prev_tok;
 
     if (!s) {
-- 
2.43.0


From 917681be0ab41303d8356d129c4e30065dfcc1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:58 +0000
Subject: [PATCH 79/93] fix: a typedef name could be declared as a variable in
 the same scope

---
 lib/tinycc/tccgen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index a2f8c6f..00aba30 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -1326,6 +1326,8 @@ static Sym *external_sym(int v, CType *type, int r, AttributeDef *ad)
         if (local_stack)
             sym_copy_ref(s, &global_stack);
     } else {
+        if (!local_stack && ((s->type.t ^ type->t) & VT_TYPEDEF))
+            tcc_error("redefinition of '%s'", get_tok_str(v, NULL));
         patch_storage(s, ad, type);
     }
     /* push variables on local_stack if any */
-- 
2.43.0


From 518645e4ef321de5e806a94cefba70cc741c0fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:30 +0000
Subject: [PATCH 80/93] fix: unary plus was accepted on a function

---
 lib/tinycc/tccgen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 00aba30..022ac19 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -5663,7 +5663,8 @@ ST_FUNC void unary(void)
     case '+':
         next();
         unary();
-        if ((vtop->type.t & VT_BTYPE) == VT_PTR)
+        if ((vtop->type.t & VT_BTYPE) == VT_PTR
+            || (vtop->type.t & VT_BTYPE) == VT_FUNC)
             tcc_error("pointer not accepted for unary plus");
         /* In order to force cast, we add zero, except for floating point
 	   where we really need an noop (otherwise -0.0 will be transformed
-- 
2.43.0


From a3db617ac65569556ec4e098a8caacae3d24602a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:01 +0000
Subject: [PATCH 81/93] fix: constants could be cast to structures

---
 lib/tinycc/tccgen.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 022ac19..f6f1dbc 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -3214,6 +3214,7 @@ again:
         if (dbt_bt == VT_VOID)
             goto done;
         if (sbt_bt == VT_VOID
+            || sbt_bt == VT_STRUCT || dbt_bt == VT_STRUCT
             || (sf && dbt_bt == VT_PTR) || (df && sbt_bt == VT_PTR)) {
 error:
             cast_error(&vtop->type, type);
-- 
2.43.0


From ca6175813c5da11842ea0c6f5d65815b0e3fd936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:32 +0000
Subject: [PATCH 82/93] fix: functions returning an incomplete structure could
 be defined and called

---
 lib/tinycc/tccgen.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index f6f1dbc..0d7c8cb 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -6101,6 +6101,8 @@ special_math_val:
             ret.r2 = VT_CONST;
             /* compute first implicit argument if a structure is returned */
             if ((s->type.t & VT_BTYPE) == VT_STRUCT) {
+                if (s->type.ref->c < 0)
+                    tcc_error("return type is an incomplete type");
                 variadic = (s->f.func_type == FUNC_ELLIPSIS);
                 ret_nregs = gfunc_sret(&s->type, variadic, &ret.type,
                                        &ret_align, &regsize);
@@ -8658,6 +8660,9 @@ static int decl(int l)
                     tcc_error("cannot use local functions");
                 if ((type.t & VT_BTYPE) != VT_FUNC)
                     expect("function definition");
+                if ((type.ref->type.t & VT_BTYPE) == VT_STRUCT
+                    && type.ref->type.ref->c < 0)
+                    tcc_error("return type is an incomplete type");
 
                 /* reject abstract declarators in function definition
                    make old style params without decl have int type */
-- 
2.43.0


From 3e15192fc4f5426cfc7e0d49e5ce1c6821dd75ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:30 +0000
Subject: [PATCH 83/93] fix: a typedef name could be declared as a tentative
 variable in the same scope

---
 lib/tinycc/tccgen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 0d7c8cb..f1d94af 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -8233,6 +8233,8 @@ static void decl_initializer_alloc(CType *type, AttributeDef *ad, int r,
             /* see if the symbol was already defined */
             sym = sym_find(v);
             if (sym) {
+                if (sym->type.t & VT_TYPEDEF)
+                    tcc_error("redefinition of '%s'", get_tok_str(v, NULL));
                 if (p.flex_array_ref && (sym->type.t & type->t & VT_ARRAY)
                     && sym->type.ref->c > type->ref->c) {
                     /* flex array was already declared with explicit size
-- 
2.43.0


From 0b84a27e164c6867f3061d0752eccbfc75ca508d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:10 +0000
Subject: [PATCH 84/93] fix: the address of a bit-field could be taken

---
 lib/tinycc/tccgen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index f1d94af..fa26f07 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -5644,6 +5644,8 @@ ST_FUNC void unary(void)
         if ((vtop->type.t & VT_BTYPE) != VT_FUNC &&
             !(vtop->type.t & (VT_ARRAY | VT_VLA)))
             test_lvalue();
+        if (vtop->type.t & VT_BITFIELD)
+            tcc_error("cannot take address of bit-field");
         if (vtop->sym)
           vtop->sym->a.addrtaken = 1;
         mk_pointer(&vtop->type);
-- 
2.43.0


From b8ff5c88aa25c7edd7abe4ae6814f0d16a6e04fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:50 +0000
Subject: [PATCH 85/93] fix: a comparison cast to void was accepted as a
 condition

---
 lib/tinycc/tccgen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index fa26f07..363e8ef 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -1029,7 +1029,7 @@ static void gvtst_set(int inv, int t)
 {
     int *p;
 
-    if (vtop->r != VT_CMP) {
+    if (vtop->r != VT_CMP || (vtop->type.t & VT_BTYPE) == VT_VOID) {
         vpushi(0);
         gen_op(TOK_NE);
         if (vtop->r != VT_CMP) /* must be VT_CONST then */
@@ -1068,7 +1068,7 @@ static int gvtst(int inv, int t)
 /* generate a zero or nozero test */
 static void gen_test_zero(int op)
 {
-    if (vtop->r == VT_CMP) {
+    if (vtop->r == VT_CMP && (vtop->type.t & VT_BTYPE) != VT_VOID) {
         int j;
         if (op == TOK_EQ) {
             j = vtop->jfalse;
-- 
2.43.0


From a0f200aae0e08c36bfb07e873f59330c2f53390f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:11 +0000
Subject: [PATCH 86/93] fix: structures could be assigned to floating and _Bool
 objects in dead code

---
 lib/tinycc/tccgen.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 363e8ef..38157eb 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -3603,6 +3603,16 @@ static void verify_assign_cast(CType *dt)
         }
         /* XXX: more tests */
         break;
+    case VT_FLOAT:
+    case VT_DOUBLE:
+    case VT_LDOUBLE:
+        if (sbt == VT_PTR || sbt == VT_FUNC)
+            goto error;
+        /* fall through */
+    case VT_BOOL:
+        if (sbt == VT_STRUCT)
+            goto case_VT_STRUCT;
+        break;
     case VT_STRUCT:
     case_VT_STRUCT:
         if (!is_compatible_unqualified_types(dt, st)) {
-- 
2.43.0


From 40d36617afd2cda610ab454780bbd4bf3f06eb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:54 +0000
Subject: [PATCH 87/93] fix: void was accepted as the last of several parameter
 types

---
 lib/tinycc/tccgen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 38157eb..67e6e69 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -4963,7 +4963,7 @@ static int post_type(CType *type, AttributeDef *ad, int storage, int td)
             for(;;) {
                 /* read param name and compute offset */
                 if (l != FUNC_OLD) {
-                    if ((pt.t & VT_BTYPE) == VT_VOID && tok == ')')
+                    if ((pt.t & VT_BTYPE) == VT_VOID && tok == ')' && !first)
                         break;
                     type_decl(&pt, &ad1, &n, TYPE_DIRECT | TYPE_ABSTRACT | TYPE_PARAM);
                     if ((pt.t & VT_BTYPE) == VT_VOID)
-- 
2.43.0


From 3530427975736f29724c14fdfdc6be40192a90ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:23 +0000
Subject: [PATCH 88/93] fix: functions returning arrays and functions could be
 declared through typedefs

---
 lib/tinycc/tccgen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 67e6e69..d038f45 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -5008,6 +5008,8 @@ static int post_type(CType *type, AttributeDef *ad, int storage, int td)
                 s->v |= SYM_FIELD;
         }
         --local_scope;
+        if ((type->t & VT_ARRAY) || (type->t & VT_BTYPE) == VT_FUNC)
+            tcc_error("declaration of a function returning an array or a function");
         /* NOTE: const is ignored in returned type as it has a special
            meaning in gcc / C++ */
         type->t &= ~VT_CONSTANT; 
-- 
2.43.0


From 65e5d764a47b675a8f22e39cf9fff877ecdfd53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:55 +0000
Subject: [PATCH 89/93] fix: functions with parameters of incomplete types
 could be defined

---
 lib/tinycc/tccgen.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index d038f45..c3d3028 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -8688,6 +8688,9 @@ static int decl(int l)
                         expect("identifier");
                     if (sym->type.t == VT_VOID)
                         sym->type = int_type;
+                    if ((sym->type.t & VT_BTYPE) == VT_STRUCT
+                        && sym->type.ref->c < 0)
+                        tcc_error("parameter of incomplete type");
                 }
 
                 /* apply post-declaraton attributes */
-- 
2.43.0


From 5bc3832171a9ba1fc9280479094c493939df982c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:41 +0000
Subject: [PATCH 90/93] fix: null pointers could be compared and combined with
 values that are not pointers or integers

---
 lib/tinycc/tccgen.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index c3d3028..7d6f947 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -2871,6 +2871,9 @@ static int combine_types(CType *dest, SValue *op1, SValue *op2, int op)
         }
         else if (op == '-' && bt1 != VT_PTR)
             ret = 0;
+        else if (bt1 != bt2 && bt1 != VT_FUNC && bt2 != VT_FUNC
+                 && !is_integer_btype(bt1 == VT_PTR ? bt2 : bt1))
+            ret = 0;
         /* http://port70.net/~nsz/c/c99/n1256.html#6.5.15p6 */
         /* If one is a null ptr constant the result type is the other.  */
         else if (is_null_pointer (op2)) type = *type1;
-- 
2.43.0


From 7973298111f45e3041a42f4112fd281075b9ef4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:11 +0000
Subject: [PATCH 91/93] fix: operands of && and || that are never evaluated
 were not checked

---
 lib/tinycc/tccgen.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 7d6f947..55436f5 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -6432,7 +6432,10 @@ static void expr_landor(int op)
 {
     int t = 0, cc = 1, f = 0, i = op == TOK_LAND, c;
     for(;;) {
-        c = f ? i : condition_3way();
+        if (f)
+            gen_cast_s(VT_BOOL), c = i; /* not evaluated, but must be scalar */
+        else
+            c = condition_3way();
         if (c < 0)
             save_regs(1), cc = 0;
         else if (c != i)
-- 
2.43.0


From ef6141ae20146c0bf9cf431477187381022aeb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:33 +0000
Subject: [PATCH 92/93] fix: expressions of type void and of incomplete
 structure type could be assigned

---
 lib/tinycc/tccgen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 55436f5..3c67c63 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -3622,6 +3622,8 @@ static void verify_assign_cast(CType *dt)
     error:
             cast_error(st, dt);
         }
+        if (type_size(dt, &lvl) < 0)
+            tcc_error("assignment to incomplete type");
         break;
     }
 }
@@ -6606,6 +6608,8 @@ static void expr_eq(void)
     expr_cond();
     if ((t = tok) == '=' || TOK_ASSIGN(t)) {
         test_lvalue();
+        if ((vtop->type.t & VT_BTYPE) == VT_VOID)
+            tcc_error("assignment to void expression");
         next();
         if (t == '=') {
             expr_eq();
-- 
2.43.0


From 5c7c4725afa509590cac5d175323b1e9db8d70f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 93/93] fix: a structure could be cast to another structure
 type

---
 lib/tinycc/tccgen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 3c67c63..a5ab896 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -3208,6 +3208,10 @@ static void gen_cast(CType *type)
     if (sbt == VT_FUNC)
         sbt = VT_PTR;
 
+    if (sbt == VT_STRUCT && dbt == VT_STRUCT
+        && !is_compatible_unqualified_types(&vtop->type, type))
+        goto error;
+
 again:
     if (sbt != dbt) {
         sf = is_float(sbt);
-- 
2.43.0

