From f7ca90300c34a982d1e8dfcfbaab43ac4593d387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:34 +0000
Subject: [PATCH 01/37] fix: mppnccombine: error counters wrapped to zero after
 256 failures

The per-record error counts were kept in unsigned char, so 256 (or a multiple)
unreadable or unwritable records were reported as success, and with -r the
input files were then removed.
---
 src/mpp-nccombine/mppnccombine.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mpp-nccombine/mppnccombine.c b/src/mpp-nccombine/mppnccombine.c
index 240521a..7414bca 100644
--- a/src/mpp-nccombine/mppnccombine.c
+++ b/src/mpp-nccombine/mppnccombine.c
@@ -269,9 +269,9 @@ main (int argc, char *argv[])
   char outfilename[2048], *strptr; /* Name of the output netCDF file */
   int outlen;                      /* Length of the output filename */
   char infilename[2048];           /* Name of an input file */
-  unsigned char infileerror = 0;   /* Errors reading an input file */
-  unsigned char infileerrors = 0;  /* Errors reading any input files */
-  unsigned char outfileerrors = 0; /* error in output file writing */
+  int infileerror = 0;             /* Errors reading an input file */
+  int infileerrors = 0;            /* Errors reading any input files */
+  int outfileerrors = 0;           /* error in output file writing */
   int nfiles = (-1);        /* Number of files in the decomposed domain */
   int a, f, r, block, k, v; /* Loop variables */
   int status;               /* Return status */
@@ -927,7 +927,7 @@ process_file (char *ncname, unsigned char appendnc, struct fileinfo *ncoutfile,
                  /*  #2 starting position of decomposed dimension */
                  /*  #3 ending position of decomposed dimension   */
   char attname[MAX_NC_NAME];       /* Name of a global or variable attribute */
-  unsigned char ncinfileerror = 0; /* Were there any file errors? */
+  int ncinfileerror = 0;           /* Were there any file errors? */
   size_t blksz = NC_BLKSZ;         /* netCDF block size */
 
   if (print_mem_usage)
-- 
2.43.0


From eeb1dfcdd66352acc2e3e37305f9bb0beb32b39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:33 +0000
Subject: [PATCH 02/37] fix: mppnccombine: nc_* status tested against -1 only,
 other failures ignored

nc__create() and nc_inq_format() return a positive errno or any negative
NC_E* code on failure, never just -1.  A failed create went unnoticed.
---
 src/mpp-nccombine/mppnccombine.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/mpp-nccombine/mppnccombine.c b/src/mpp-nccombine/mppnccombine.c
index 7414bca..508b8c7 100644
--- a/src/mpp-nccombine/mppnccombine.c
+++ b/src/mpp-nccombine/mppnccombine.c
@@ -447,7 +447,7 @@ main (int argc, char *argv[])
             }
           status
               = nc__create (outfilename, format, 0, &blksz, &ncoutfile->ncfid);
-          if (status == (-1))
+          if (status != NC_NOERR)
             {
               fprintf (stderr,
                        "Error: cannot create the output netCDF file!\n");
@@ -1082,7 +1082,7 @@ process_file (char *ncname, unsigned char appendnc, struct fileinfo *ncoutfile,
         printf ("    Creating output \"%s\"\n", outncname);
 
       /* Determine the format of the input netCDF file */
-      if (nc_inq_format (ncinfile->ncfid, &ncinformat) == (-1))
+      if (nc_inq_format (ncinfile->ncfid, &ncinformat) != NC_NOERR)
         {
           fprintf (stderr, "Error: cannot read the input file format!\n");
           ncclose (ncinfile->ncfid);
@@ -1091,7 +1091,7 @@ process_file (char *ncname, unsigned char appendnc, struct fileinfo *ncoutfile,
         }
 
       /* Determine the format of the output netCDF file */
-      if (nc_inq_format (ncoutfile->ncfid, &ncoutformat) == (-1))
+      if (nc_inq_format (ncoutfile->ncfid, &ncoutformat) != NC_NOERR)
         {
           fprintf (stderr, "Error: cannot read the output file format!\n");
           ncclose (ncinfile->ncfid);
@@ -1137,11 +1137,10 @@ process_file (char *ncname, unsigned char appendnc, struct fileinfo *ncoutfile,
           /* close the file to recreate it */
           ncclose (ncoutfile->ncfid);
           if (nc__create (outncname, ncoutformat, 0, &blksz, &ncoutfile->ncfid)
-              == (-1))
+              != NC_NOERR)
             {
               fprintf (stderr,
                        "Error: cannot create the output netCDF file!\n");
-              free (ncoutfile);
               return (1);
             }
           ncsetfill (ncoutfile->ncfid, NC_NOFILL);
-- 
2.43.0


From 19b7f6f1ebc7e0d64eb367f9d80a8df382c5b1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:04 +0000
Subject: [PATCH 03/37] fix: mppnccombine: failures while defining the output
 file were ignored

The statuses of the calls that define dimensions, variables, attributes, fill
mode and compression, end define mode, and close the files were dropped, so an
incomplete output file was reported as success (and -r removed the inputs).
---
 src/mpp-nccombine/mppnccombine.c | 75 ++++++++++++++++++++++++--------
 1 file changed, 56 insertions(+), 19 deletions(-)

diff --git a/src/mpp-nccombine/mppnccombine.c b/src/mpp-nccombine/mppnccombine.c
index 508b8c7..cb6984e 100644
--- a/src/mpp-nccombine/mppnccombine.c
+++ b/src/mpp-nccombine/mppnccombine.c
@@ -454,7 +454,12 @@ main (int argc, char *argv[])
               free (ncoutfile);
               return (1);
             }
-          ncsetfill (ncoutfile->ncfid, NC_NOFILL);
+          if (ncsetfill (ncoutfile->ncfid, NC_NOFILL) == (-1))
+            {
+              fprintf (stderr,
+                       "Error: cannot set the output file's fill mode!\n");
+              return (1);
+            }
         }
       /* Open an existing netCDF file for appending */
       else
@@ -1135,7 +1140,8 @@ process_file (char *ncname, unsigned char appendnc, struct fileinfo *ncoutfile,
                 printf ("    ncoutformat reset to NC_64BIT_DATA\n");
             }
           /* close the file to recreate it */
-          ncclose (ncoutfile->ncfid);
+          if (ncclose (ncoutfile->ncfid) == (-1))
+            ncinfileerror++;
           if (nc__create (outncname, ncoutformat, 0, &blksz, &ncoutfile->ncfid)
               != NC_NOERR)
             {
@@ -1143,35 +1149,52 @@ process_file (char *ncname, unsigned char appendnc, struct fileinfo *ncoutfile,
                        "Error: cannot create the output netCDF file!\n");
               return (1);
             }
-          ncsetfill (ncoutfile->ncfid, NC_NOFILL);
+          if (ncsetfill (ncoutfile->ncfid, NC_NOFILL) == (-1))
+            ncinfileerror++;
         }
 
       /* Define the dimensions */
       for (d = 0; d < ncinfile->ndims; d++)
         {
-          if (d == ncinfile->recdim)
-            ncdimdef (ncoutfile->ncfid, ncinfile->dimname[d], NC_UNLIMITED);
-          else
-            ncdimdef (ncoutfile->ncfid, ncinfile->dimname[d],
-                      ncinfile->dimfullsize[d]);
+          if (ncdimdef (ncoutfile->ncfid, ncinfile->dimname[d],
+                        d == ncinfile->recdim ? NC_UNLIMITED
+                                              : ncinfile->dimfullsize[d])
+              == (-1))
+            {
+              fprintf (stderr, "Error: cannot define dimension \"%s\"!\n",
+                       ncinfile->dimname[d]);
+              ncinfileerror++;
+            }
         }
 
       /* Define the variables and copy their attributes */
       for (v = 0; v < ncinfile->nvars; v++)
         {
-          ncvardef (ncoutfile->ncfid, ncinfile->varname[v],
-                    ncinfile->datatype[v], ncinfile->varndims[v],
-                    ncinfile->vardim[v]);
+          if (ncvardef (ncoutfile->ncfid, ncinfile->varname[v],
+                        ncinfile->datatype[v], ncinfile->varndims[v],
+                        ncinfile->vardim[v])
+              == (-1))
+            {
+              fprintf (stderr, "Error: cannot define variable \"%s\"!\n",
+                       ncinfile->varname[v]);
+              ncinfileerror++;
+            }
           for (n = 0; n < ncinfile->natts[v]; n++)
             {
-              ncattname (ncinfile->ncfid, v, n, attname);
+              if (ncattname (ncinfile->ncfid, v, n, attname) == (-1))
+                {
+                  ncinfileerror++;
+                  continue;
+                }
               if (missing)
                 {
                   if (!strcmp (attname, "missing_value"))
                     {
                       ncoutfile->varmiss[v] = 1;
-                      ncattget (ncinfile->ncfid, v, "missing_value",
-                                (void *)(ncoutfile->varmissval[v]));
+                      if (ncattget (ncinfile->ncfid, v, "missing_value",
+                                    (void *)(ncoutfile->varmissval[v]))
+                          == (-1))
+                        ncinfileerror++;
                     }
                 }
               if (!strcmp (attname, "domain_decomposition"))
@@ -1196,12 +1219,20 @@ process_file (char *ncname, unsigned char appendnc, struct fileinfo *ncoutfile,
       /* Copy the global attributes */
       for (n = 0; n < ncinfile->ngatts; n++)
         {
-          ncattname (ncinfile->ncfid, NC_GLOBAL, n, attname);
+          if (ncattname (ncinfile->ncfid, NC_GLOBAL, n, attname) == (-1))
+            {
+              ncinfileerror++;
+              continue;
+            }
           if (!strcmp (attname, "NumFilesInSet"))
             continue;
           else if (!strcmp (attname, "filename"))
-            ncattput (ncoutfile->ncfid, NC_GLOBAL, attname, NC_CHAR,
-                      strlen (outncname), (void *)outncname);
+            {
+              if (ncattput (ncoutfile->ncfid, NC_GLOBAL, attname, NC_CHAR,
+                            strlen (outncname), (void *)outncname)
+                  == (-1))
+                ncinfileerror++;
+            }
           else
             {
               if (ncattcopy (ncinfile->ncfid, NC_GLOBAL, attname,
@@ -1227,12 +1258,17 @@ process_file (char *ncname, unsigned char appendnc, struct fileinfo *ncoutfile,
                   fprintf (stderr, "Error: nc_def_var_deflate failed! Are you "
                                    "setting NETCDF4?\n");
                   usage ();
+                  ncinfileerror++;
                 }
             }
         }
 
       /* Definitions done */
-      nc__enddef (ncoutfile->ncfid, headerpad, 4, 0, 4);
+      if (nc__enddef (ncoutfile->ncfid, headerpad, 4, 0, 4) != NC_NOERR)
+        {
+          fprintf (stderr, "Error: cannot end the output file's definition!\n");
+          ncinfileerror++;
+        }
     }
 
   /* Copy all data values of the dimensions and variables to memory */
@@ -1263,7 +1299,8 @@ process_file (char *ncname, unsigned char appendnc, struct fileinfo *ncoutfile,
           *nrecs)); // r is a minimum of the next block start point and nrecs
 
   /* Done */
-  ncclose (ncinfile->ncfid);
+  if (ncclose (ncinfile->ncfid) == (-1))
+    ncinfileerror++;
   free (ncinfile);
   return (ncinfileerror);
 }
-- 
2.43.0


From 16142120ee319102d0f54573d6869a6ec44e0856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:04 +0000
Subject: [PATCH 04/37] fix: mppnccombine: a missing input file deleted a
 pre-existing output file

With -a (append) or -x (memory estimate) the output file named on the command
line is not one this run created; only remove what this run created.
---
 src/mpp-nccombine/mppnccombine.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/mpp-nccombine/mppnccombine.c b/src/mpp-nccombine/mppnccombine.c
index cb6984e..d43e05c 100644
--- a/src/mpp-nccombine/mppnccombine.c
+++ b/src/mpp-nccombine/mppnccombine.c
@@ -275,6 +275,7 @@ main (int argc, char *argv[])
   int nfiles = (-1);        /* Number of files in the decomposed domain */
   int a, f, r, block, k, v; /* Loop variables */
   int status;               /* Return status */
+  int created = 0;          /* Did this run create the output file? */
   int nrecs = 1;            /* Number of records in each decomposed file */
   int bf = DEFAULT_BF; /* default blocking factor: bf records will be read and
                           written at a time */
@@ -454,6 +455,7 @@ main (int argc, char *argv[])
               free (ncoutfile);
               return (1);
             }
+          created = 1;
           if (ncsetfill (ncoutfile->ncfid, NC_NOFILL) == (-1))
             {
               fprintf (stderr,
@@ -515,7 +517,8 @@ main (int argc, char *argv[])
                         printf ("ERROR: missing at least %s from the input "
                                 "file set.  Exiting.\n",
                                 infilename);
-                        unlink (outfilename);
+                        if (created)
+                          unlink (outfilename);
                         return 9;
                       }
                     else
@@ -559,7 +562,8 @@ main (int argc, char *argv[])
             if (num_infiles_used == 0)
               {
                 fprintf (stderr, "Warning: No input file found in range.\n");
-                unlink (outfilename);
+                if (created)
+                  unlink (outfilename);
                 exit (1);
               }
             /* free the memory before reading the next block */
@@ -611,7 +615,8 @@ main (int argc, char *argv[])
                           printf ("ERROR: missing at least %s from the input "
                                   "file set.  Exiting.\n",
                                   infilename);
-                          unlink (outfilename);
+                          if (created)
+                            unlink (outfilename);
                           return 9;
                         }
                       else
@@ -692,7 +697,8 @@ main (int argc, char *argv[])
                     printf ("ERROR: missing at least %s from the input file "
                             "set.  Exiting.\n",
                             argv[a]);
-                    unlink (outfilename);
+                    if (created)
+                      unlink (outfilename);
                     return 9;
                   }
                 else
-- 
2.43.0


From 9a813fd81762556ef19b7ffd6ca9e91f6b2aaa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:30 +0000
Subject: [PATCH 05/37] fix: mppncscatter: several failures were reported but
 the run still succeeded

Unreadable dimension metadata, a failed nc_enddef() and a variable of a type
that is not copied left incomplete output files with exit status 0.
---
 src/mpp-ncscatter/mppncscatter.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mpp-ncscatter/mppncscatter.c b/src/mpp-ncscatter/mppncscatter.c
index 0ad2aa8..859d19a 100644
--- a/src/mpp-ncscatter/mppncscatter.c
+++ b/src/mpp-ncscatter/mppncscatter.c
@@ -305,7 +305,7 @@ void get_scatter_dims(int nc, int ndims, int nvars, ScatterDim* scatterdims[], m
     status = nc_inq_dimname(nc, dimid, name);
     if (status != NC_NOERR) {
       fprintf(stderr, "Error. Failed to query number dim name from input file for dimid %d.\n", dimid);
-      goto DIMDONE;
+      exit(-1);
     }
 
     if (dimid == recid) {
@@ -315,7 +315,7 @@ void get_scatter_dims(int nc, int ndims, int nvars, ScatterDim* scatterdims[], m
       status = nc_inq_dimlen(nc, dimid, &dimlen);
       if (status != NC_NOERR) {
         fprintf(stderr, "Error. Failed to query dim length from input file for \"%s\".\n", name);
-        goto DIMDONE;
+        exit(-1);
       }
     }
 
@@ -791,7 +791,7 @@ void put_var(int nc, int *ncids, int ndims, int nvars, ScatterDim *scatterdims[]
       break;
     default:
       fprintf(stderr, "Error. Unknown data type for var %s.\n", varname);
-      break;
+      exit(-1);
     }
   }
 
@@ -864,7 +864,7 @@ void put_var(int nc, int *ncids, int ndims, int nvars, ScatterDim *scatterdims[]
       break;
     default:
       fprintf(stderr, "Error. Unknown data type for var %s.\n", varname);
-      break;
+      exit(-1);
     }
 
     for(yi=0; yi < ny; ++yi) {
@@ -1067,7 +1067,7 @@ void put_var(int nc, int *ncids, int ndims, int nvars, ScatterDim *scatterdims[]
 	break;
       default:
 	fprintf(stderr, "Error. Unknown data type for var %s.\n", varname);
-	break;
+	exit(-1);
       }
 
       for(yi=0; yi < ny; ++yi) {
@@ -1409,7 +1409,7 @@ int mppncscatter(mnsopts* opts)
 
   if (!dryrun) {
     for(i=0; i < nfiles; ++i)
-      nc_enddef(ncids[i]);
+      CHECK_NC_ERRSTAT(nc_enddef(ncids[i]));
   }
 
   put_var(nc, ncids, ndims, nvars, scatterdims, opts);
-- 
2.43.0


From 615187e98468424fd8d40fe16b390d92f55a6865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:30 +0000
Subject: [PATCH 06/37] fix: mppncscatter: invalid domain extents were reported
 but not fatal

---
 src/mpp-ncscatter/mppncscatter.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpp-ncscatter/mppncscatter.c b/src/mpp-ncscatter/mppncscatter.c
index 859d19a..7bbe5a7 100644
--- a/src/mpp-ncscatter/mppncscatter.c
+++ b/src/mpp-ncscatter/mppncscatter.c
@@ -1247,9 +1247,11 @@ void mpp_compute_extent(size_t isg, size_t ieg, size_t ndivs, size_t* start, siz
 
     if (ie < iss) {
       fprintf(stderr, "Error: %s/%d: domain extents must be positive definite. \"ie\"=%zu, \"iss\"=%zu\n", __FILE__, __LINE__, ie, iss);
+      exit(-1);
     }
     if ( (ndiv == (ndivs-1)) && (end[ndiv] != ieg) ) {
       fprintf(stderr, "Error: %s/%d: domain extents do not span space completely.\n", __FILE__, __LINE__);
+      exit(-1);
     }
 
     iss = ie + 1;
-- 
2.43.0


From fa7cbc093f64346c5f72dcf33a8d1435e66f1d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:30 +0000
Subject: [PATCH 07/37] fix: mppnccombine: -x exited 0 when an input file could
 not be read

---
 src/mpp-nccombine/mppnccombine.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mpp-nccombine/mppnccombine.c b/src/mpp-nccombine/mppnccombine.c
index d43e05c..2c0c334 100644
--- a/src/mpp-nccombine/mppnccombine.c
+++ b/src/mpp-nccombine/mppnccombine.c
@@ -547,7 +547,7 @@ main (int argc, char *argv[])
                     if (mem_dry_run)
                       {
                         print_estimated_mem_footprint (verbose);
-                        exit (0);
+                        exit (infileerrors ? 1 : 0);
                       }
                     if (verbose > 1)
                       printf ("  Write variables from previous %d files\n", f);
@@ -647,7 +647,7 @@ main (int argc, char *argv[])
                       if (mem_dry_run)
                         {
                           print_estimated_mem_footprint (verbose);
-                          exit (0);
+                          exit (infileerrors ? 1 : 0);
                         }
                       if (verbose > 1)
                         printf ("  Write variables from previous %d files\n",
@@ -719,7 +719,7 @@ main (int argc, char *argv[])
                 if (mem_dry_run)
                   {
                     print_estimated_mem_footprint (verbose);
-                    exit (0);
+                    exit (infileerrors ? 1 : 0);
                   }
                 if (verbose > 1)
                   printf ("  Write variables from previous %d files\n", f);
-- 
2.43.0


From f37a60d632ab8a7b648f2bca1b964410b2e61499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:06 +0000
Subject: [PATCH 08/37] fix: mpp_open: status of nc_inq_format() was ignored

in_format then keeps its previous value and later output files are created in
whatever format that happens to be.
---
 lib/libfrencutils/mpp_io.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/libfrencutils/mpp_io.c b/lib/libfrencutils/mpp_io.c
index 58c4499..26ab81a 100644
--- a/lib/libfrencutils/mpp_io.c
+++ b/lib/libfrencutils/mpp_io.c
@@ -80,7 +80,7 @@ void netcdf_error(const char *msg, int status )
 int mpp_open(const char *file, int action) {
   char curfile[STRING];
   char errmsg[512];
-  int ncid, status, istat, n, fid;
+  int ncid, status, n, fid;
   static int first_call = 1;
   static size_t blksz=1048576;
 
@@ -185,7 +185,7 @@ int mpp_open(const char *file, int action) {
   case MPP_READ:
     status = nc_open(curfile,NC_NOWRITE, &ncid);
 #ifndef use_netCDF3
-    istat = nc_inq_format(ncid,&in_format);
+    if(status == NC_NOERR) status = nc_inq_format(ncid,&in_format);
 #endif
     break;
   default:
-- 
2.43.0


From f15e9d564741ea842c63f739c4a09e7b5edc6ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:13 +0000
Subject: [PATCH 09/37] fix: mppnccombine: -x used an output file it never
 opened when no input was found

---
 src/mpp-nccombine/mppnccombine.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mpp-nccombine/mppnccombine.c b/src/mpp-nccombine/mppnccombine.c
index 2c0c334..f405dcd 100644
--- a/src/mpp-nccombine/mppnccombine.c
+++ b/src/mpp-nccombine/mppnccombine.c
@@ -742,6 +742,13 @@ main (int argc, char *argv[])
               }
       }
 
+  /* There is no output file in a memory estimate that found no input */
+  if (mem_dry_run)
+    {
+      fprintf (stderr, "Error: no input file found!\n");
+      return (1);
+    }
+
   /* Cleanup and check for any input or output file errors */
   if (ncsync (ncoutfile->ncfid) == (-1))
     outfileerrors++;
-- 
2.43.0


From 5bb0c9d904081286435505dc58d033c5ebcb2d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:33 +0000
Subject: [PATCH 10/37] fix: remap_land filled the wrong buffer for the
 cold-start cohort axis

---
 src/remap-land/remap_land.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/remap-land/remap_land.c b/src/remap-land/remap_land.c
index 4b52a64..408cb9b 100644
--- a/src/remap-land/remap_land.c
+++ b/src/remap-land/remap_land.c
@@ -2247,7 +2247,7 @@ int main(int argc, char *argv[]) {
         if (t == 0 && src_has_cohort == 0 && cold_has_cohort == 1) {
           int *cohort_data_cold = NULL;
           cohort_data_cold = (int *)malloc(ncohort * sizeof(int));
-          for (int ic = 0; ic < ncohort; ic++) cohort_data[ic] = ic + 1;
+          for (int ic = 0; ic < ncohort; ic++) cohort_data_cold[ic] = ic + 1;
           vid_dst = mpp_get_varid(fid_dst, COHORT_NAME);
           mpp_put_var_value(fid_dst, vid_dst, cohort_data_cold);
           free(cohort_data_cold);
-- 
2.43.0


From a99f02124beefa4848f65df32a4c49b2f977f4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:45 +0000
Subject: [PATCH 11/37] fix: remap_land_parallel was linked without MPI: every
 process wrote the output

---
 src/Makefile.am | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Makefile.am b/src/Makefile.am
index da17811..911d9c7 100644
--- a/src/Makefile.am
+++ b/src/Makefile.am
@@ -417,8 +417,9 @@ remap_land_parallel_CFLAGS = \
   -Duse_libMPI \
   $(AM_CFLAGS)
 remap_land_parallel_LDADD = \
-  $(top_builddir)/lib/libfrencutils/libfrencutils.a \
-  $(LDADD)
+  $(top_builddir)/lib/libfrencutils/libfrencutils_mpi.a \
+  $(LDADD) \
+  $(MPI_CLDFLAGS)
 
 # ********************************************************* #
 # river_regrid                                              #
-- 
2.43.0


From 01debfa0faaf70fe599e60dd24c2530d28c7b01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:33 +0000
Subject: [PATCH 12/37] fix: mppncscatter: --prefix reset the start number

The case fell through into the one of --start, so the prefix was also
read as a number: the start became 0 (or the digits of the prefix).
---
 src/mpp-ncscatter/opt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mpp-ncscatter/opt.c b/src/mpp-ncscatter/opt.c
index 8d165b2..42d14e1 100644
--- a/src/mpp-ncscatter/opt.c
+++ b/src/mpp-ncscatter/opt.c
@@ -126,6 +126,7 @@ int getmnsopts(int argc, char** argv, mnsopts* popts)
         len = strlen(optarg);
         popts->prefix = (char*)malloc(len+1);
         strcpy(popts->prefix, optarg);
+        break;
 
 			case 's':
 				popts->start = atoi(optarg);
-- 
2.43.0


From 29a02c820e6f38c2f66fe57cabc2b2115f6687ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:33 +0000
Subject: [PATCH 13/37] fix: make_coupler_mosaic: --area_ratio_thresh switched
 on --check

The case fell through into the one of --check.
---
 src/make-coupler-mosaic/make_coupler_mosaic.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/make-coupler-mosaic/make_coupler_mosaic.c b/src/make-coupler-mosaic/make_coupler_mosaic.c
index f1c424a..835849a 100644
--- a/src/make-coupler-mosaic/make_coupler_mosaic.c
+++ b/src/make-coupler-mosaic/make_coupler_mosaic.c
@@ -464,6 +464,7 @@ int main (int argc, char *argv[])
       break;
     case 'r':
       area_ratio_thresh = atof(optarg);
+      break;
     case 'n':
       check = 1;
       break;
-- 
2.43.0


From 247f4de57a63e2238803c1d02f1355a060ba90c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:33 +0000
Subject: [PATCH 14/37] fix: is-compressed: option table was not terminated

getopt_long() read beyond it for an unknown long option.
---
 src/land_utils/is-compressed.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/land_utils/is-compressed.c b/src/land_utils/is-compressed.c
index f092562..c8111b6 100644
--- a/src/land_utils/is-compressed.c
+++ b/src/land_utils/is-compressed.c
@@ -72,7 +72,8 @@ int main(int argc, char* argv[])
    {
       {"debug", no_argument, NULL, 'd'},
       {"help", no_argument, NULL, 'h'},
-      {"version", no_argument, NULL, 'V'}
+      {"version", no_argument, NULL, 'V'},
+      {NULL, 0, NULL, 0}
    };
 
    int c;
-- 
2.43.0


From dc053d56da2649a1624ae96e4a779e08231d3af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:46 +0000
Subject: [PATCH 15/37] fix: nct_hst_att_cat: check the status of every netCDF
 call

---
 src/nct_nc_utils.F90 | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/nct_nc_utils.F90 b/src/nct_nc_utils.F90
index 333a169..2221096 100644
--- a/src/nct_nc_utils.F90
+++ b/src/nct_nc_utils.F90
@@ -55,8 +55,10 @@ contains
       character(len=:), allocatable :: new_history_string, old_history_string
 
       ncstatus = NF90_INQUIRE(out_id, nattributes=numatts)
+      call check_status(ncstatus)
       do attnum=1, numatts
          ncstatus = nf90_inq_attname(out_id, NF90_GLOBAL, attnum, attname)
+         call check_status(ncstatus)
          if (trim(attname) == trim(history_att_name)) then
             exit
          end if
@@ -65,19 +67,35 @@ contains
          new_history_string = date_and_time_str()//": "//trim(hist_string)
       else
          ncstatus = NF90_INQUIRE_ATTRIBUTE(out_id, NF90_GLOBAL, history_att_name, len=attlen, xtype=atttype)
+         call check_status(ncstatus)
          if (atttype /= NF90_CHAR) then
             write (error_unit,*) 'History attribute is not a character type'
             return
          end if
          allocate(character(len=attlen) :: old_history_string)
          ncstatus = NF90_GET_ATT(out_id, NF90_GLOBAL, history_att_name, old_history_string)
+         call check_status(ncstatus)
          new_history_string = date_and_time_str()//": "//trim(hist_string)//new_line('A')//old_history_string
       end if
       ! Add/prepend history attribute
       ncstatus = NF90_PUT_ATT(out_id, NF90_GLOBAL, history_att_name, new_history_string)
+      call check_status(ncstatus)
       ! Add FRE NCtools version information to the file
       ncstatus = NF90_PUT_ATT(out_id, NF90_GLOBAL, PACKAGE,&
            & PACKAGE_NAME//" version "//PACKAGE_VERSION//" (git: "//GIT_REVISION//")")
+      call check_status(ncstatus)
+
+   contains
+
+      !> Stop with an error message if a NetCDF operation failed
+      subroutine check_status (ncode)
+         integer, intent(in) :: ncode !< Status returned by the NetCDF library
+         if (ncode /= NF90_NOERR) then
+            write (error_unit,*) 'NETCDF ERROR writing the history attribute'
+            write (error_unit,*) trim(NF90_STRERROR(ncode))
+            stop 111
+         end if
+      end subroutine check_status
    end subroutine nct_hst_att_cat
 
 
-- 
2.43.0


From ed678c920d9846274423ee1c4d0d2add58686a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:46 +0000
Subject: [PATCH 16/37] fix: copy_axis: check the status of NF90_INQUIRE

---
 src/plevel/pinterp_utilities.F90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plevel/pinterp_utilities.F90 b/src/plevel/pinterp_utilities.F90
index bb5046d..ea23339 100644
--- a/src/plevel/pinterp_utilities.F90
+++ b/src/plevel/pinterp_utilities.F90
@@ -76,6 +76,7 @@ contains
 
       ! get record dimension id
       istat = NF90_INQUIRE (ncid_in, unlimiteddimid=recdim)
+      if (istat /= NF90_NOERR) call error_handler (ncode=istat)
 
       ! get axis id
       istat = NF90_INQ_DIMID ( ncid_in, trim(name_in), dimid_in )
-- 
2.43.0


From f336b3ff20db18a9f70126d4668d8b8a3af7fe88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:46 +0000
Subject: [PATCH 17/37] fix: plevel-interp: report a failed inquiry of the time
 bounds dimension

---
 src/plevel/run_pressure_interp.F90 | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/plevel/run_pressure_interp.F90 b/src/plevel/run_pressure_interp.F90
index 881f011..112c803 100644
--- a/src/plevel/run_pressure_interp.F90
+++ b/src/plevel/run_pressure_interp.F90
@@ -558,11 +558,10 @@ program run_pressure_interp
       if (istat /= NF90_NOERR) call error_handler ('getting dimensions for time bounds', ncode=istat)
       if (ndim == 1 .or. ndim == 2) then
          istat = NF90_INQUIRE_DIMENSION (ncid_in, dimids(1), name=edge_name)
-         if (istat == NF90_NOERR) then
-            naxes = naxes + 1
-            call copy_axis_information (ncid_in, edge_name, ncid_out, (/1,1,1,1/), &
-               Axes(naxes), dimid_out=dimid_tbnds)
-         endif
+         if (istat /= NF90_NOERR) call error_handler ('getting dimension for time bounds', ncode=istat)
+         naxes = naxes + 1
+         call copy_axis_information (ncid_in, edge_name, ncid_out, (/1,1,1,1/), &
+            Axes(naxes), dimid_out=dimid_tbnds)
       else
          call error_handler ('number of dimensions not consistent for '//trim(name_time_bounds))
       endif
-- 
2.43.0


From 4671a13629ec80c54c2b31e44ff07ef5279c4e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:46 +0000
Subject: [PATCH 18/37] fix: nfu_inq_compressed_var: return the status of a
 failed nfu_inq_var

---
 lib/libnfu/nfu_compress.F90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/libnfu/nfu_compress.F90 b/lib/libnfu/nfu_compress.F90
index 4d05980..53c519b 100644
--- a/lib/libnfu/nfu_compress.F90
+++ b/lib/libnfu/nfu_compress.F90
@@ -602,6 +602,7 @@ function inq_compressed_var_i(ncid, vid, name, xtype, ndims, dimids, dimlens, &
 
   iret =  nfu_inq_var(ncid, vid, name, xtype, nd0, dids0, dlens0, natts, &
      is_dim, has_records, varsize, recsize, nrec)
+  __NF_TRY__(iret,iret,7)
 
   do_first_dim_only = .false.
   if(present(first_dim_only)) do_first_dim_only = first_dim_only
-- 
2.43.0


From 8c09dd220a57f492815b67d4b032c4ad300d630d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:46 +0000
Subject: [PATCH 19/37] fix: create_xgrid: stop before the exchange grid arrays
 overflow, not one cell later

---
 lib/libfrencutils/create_xgrid.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/libfrencutils/create_xgrid.c b/lib/libfrencutils/create_xgrid.c
index e2959c8..06b7dbb 100644
--- a/lib/libfrencutils/create_xgrid.c
+++ b/lib/libfrencutils/create_xgrid.c
@@ -294,7 +294,7 @@ int create_xgrid_1dx2d_order1(const int *nlon_in, const int *nlat_in, const int
 	  i_out[nxgrid]   = i2;
 	  j_out[nxgrid]   = j2;
 	  ++nxgrid;
-	  if(nxgrid > get_maxxgrid()) error_handler("nxgrid exceeds MAXXGRID limit; increase the value using --maxxgrid flag or reduce grid resolution");
+	  if(nxgrid >= get_maxxgrid()) error_handler("nxgrid exceeds MAXXGRID limit; increase the value using --maxxgrid flag or reduce grid resolution");
 	}
       }
     }
@@ -395,7 +395,7 @@ int create_xgrid_1dx2d_order2(const int *nlon_in, const int *nlat_in, const int
 	  i_out[nxgrid]   = i2;
 	  j_out[nxgrid]   = j2;
 	  ++nxgrid;
-	  if(nxgrid > get_maxxgrid()) error_handler("nxgrid exceeds MAXXGRID limit; increase the value using --maxxgrid flag or reduce grid resolution");
+	  if(nxgrid >= get_maxxgrid()) error_handler("nxgrid exceeds MAXXGRID limit; increase the value using --maxxgrid flag or reduce grid resolution");
 	}
       }
     }
@@ -494,7 +494,7 @@ int create_xgrid_2dx1d_order1(const int *nlon_in, const int *nlat_in, const int
 	  i_out[nxgrid]   = i2;
 	  j_out[nxgrid]   = j2;
 	  ++nxgrid;
-	  if(nxgrid > get_maxxgrid()) error_handler("nxgrid exceeds MAXXGRID limit; increase the value using --maxxgrid flag or reduce grid resolution");
+	  if(nxgrid >= get_maxxgrid()) error_handler("nxgrid exceeds MAXXGRID limit; increase the value using --maxxgrid flag or reduce grid resolution");
 	}
       }
     }
@@ -600,7 +600,7 @@ int create_xgrid_2dx1d_order2(const int *nlon_in, const int *nlat_in, const int
 	  i_out[nxgrid] = i2;
 	  j_out[nxgrid] = j2;
 	  ++nxgrid;
-	  if(nxgrid > get_maxxgrid()) error_handler("nxgrid exceeds MAXXGRID limit; increase the value using --maxxgrid flag or reduce grid resolution");
+	  if(nxgrid >= get_maxxgrid()) error_handler("nxgrid exceeds MAXXGRID limit; increase the value using --maxxgrid flag or reduce grid resolution");
 	}
       }
     }
@@ -1460,7 +1460,7 @@ int create_xgrid_great_circle(const int *nlon_in, const int *nlat_in, const int
 	  i_out[nxgrid]      = i2;
 	  j_out[nxgrid]      = j2;
 	  ++nxgrid;
-	  if(nxgrid > get_maxxgrid()) error_handler("nxgrid exceeds MAXXGRID limit; increase the value using --maxxgrid flag or reduce grid resolution");
+	  if(nxgrid >= get_maxxgrid()) error_handler("nxgrid exceeds MAXXGRID limit; increase the value using --maxxgrid flag or reduce grid resolution");
 	}
       }
     }
-- 
2.43.0


From 4aa7ebf971b97cdb730cc59e13736b2b98e68a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:46 +0000
Subject: [PATCH 20/37] fix: make_coupler_mosaic: stop before the exchange grid
 arrays overflow, not one cell later

---
 src/make-coupler-mosaic/make_coupler_mosaic.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/make-coupler-mosaic/make_coupler_mosaic.c b/src/make-coupler-mosaic/make_coupler_mosaic.c
index 835849a..82ed504 100644
--- a/src/make-coupler-mosaic/make_coupler_mosaic.c
+++ b/src/make-coupler-mosaic/make_coupler_mosaic.c
@@ -1671,7 +1671,7 @@ int main (int argc, char *argv[])
 		    atmxocn_clat[na][no][naxo[na][no]] = poly_ctrlat ( x_out, y_out, n_out )*ocn_frac;
 		  }
 		  ++(naxo[na][no]);
-		  if(naxo[na][no] > get_maxxgrid()) mpp_error("naxo exceeds MAXXGRID limit; increase the value using --maxxgrid flag");
+		  if(naxo[na][no] >= get_maxxgrid()) mpp_error("naxo exceeds MAXXGRID limit; increase the value using --maxxgrid flag");
 		}
 	      }
 	    }
@@ -1738,7 +1738,7 @@ int main (int argc, char *argv[])
 	      atmxlnd_clat[na][nl][naxl[na][nl]] = axl_clat[l];
 	    }
 	    ++(naxl[na][nl]);
-	    if(naxl[na][nl] > get_maxxgrid()) mpp_error("naxl exceeds MAXXGRID limit; increase the value using --maxxgrid flag");
+	    if(naxl[na][nl] >= get_maxxgrid()) mpp_error("naxl exceeds MAXXGRID limit; increase the value using --maxxgrid flag");
 	  }
 	}
 
@@ -2706,7 +2706,7 @@ int main (int argc, char *argv[])
 		  lndxocn_clat[nl][no][nlxo[nl][no]] = poly_ctrlat ( x_out, y_out, n_out )*ocn_frac;
 		}
 		++(nlxo[nl][no]);
-		if(nlxo[nl][no] > get_maxxgrid()) mpp_error("nlxo exceeds MAXXGRID limit; increase the value using --maxxgrid flag");
+		if(nlxo[nl][no] >= get_maxxgrid()) mpp_error("nlxo exceeds MAXXGRID limit; increase the value using --maxxgrid flag");
 	      }
 	    }
 	  } /* end of io, jo loop */
@@ -3238,7 +3238,7 @@ int main (int argc, char *argv[])
 		    wavxocn_clat[nw][no][nwxo[nw][no]] = poly_ctrlat ( x_out, y_out, n_out )*ocn_frac;
 		  }
 		  ++(nwxo[nw][no]);
-		  if(nwxo[nw][no] > get_maxxgrid()) mpp_error("nwxo exceeds MAXXGRID limit; increase the value using --maxxgrid flag");
+		  if(nwxo[nw][no] >= get_maxxgrid()) mpp_error("nwxo exceeds MAXXGRID limit; increase the value using --maxxgrid flag");
 		}
 	      }
 	    }
-- 
2.43.0


From 30a8ab042c7697da98ead825c8c4671ce8b74f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:32 +0000
Subject: [PATCH 21/37] fix: make_coupler_mosaic: stop before the lists of
 exchange cells and of exchange grid files overflow

---
 src/make-coupler-mosaic/make_coupler_mosaic.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/make-coupler-mosaic/make_coupler_mosaic.c b/src/make-coupler-mosaic/make_coupler_mosaic.c
index 82ed504..a7b7046 100644
--- a/src/make-coupler-mosaic/make_coupler_mosaic.c
+++ b/src/make-coupler-mosaic/make_coupler_mosaic.c
@@ -1560,7 +1560,7 @@ int main (int argc, char *argv[])
 		}
 
 		++count;
-		if(count>MX) mpp_error("make_coupler_mosaic: count is greater than MX, increase MX");
+		if(count>=MX) mpp_error("make_coupler_mosaic: count is greater than MX, increase MX");
       	      }/*if( xarea/min_area > area_ratio_thresh )*/
 	    }/*if(nout>0)*/
 	  }/*ni,nj loop*/
@@ -2170,6 +2170,7 @@ int main (int argc, char *argv[])
 	  for(i=0; i<4; i++) {
 	    start[i] = 0; nwrite[i] = 1;
 	  }
+	  if(nfile_axl >= MAXXGRIDFILE) mpp_error("make_coupler_mosaic: number of exchange grid files exceeds MAXXGRIDFILE, increase MAXXGRIDFILE");
 	  if(same_mosaic)
 	    sprintf(axl_file[nfile_axl], "atm_%s_%sXlnd_%s_%s.nc", amosaic_name, atile_name[na], lmosaic_name, ltile_name[nl]);
 	  else
@@ -2289,6 +2290,7 @@ int main (int argc, char *argv[])
 	    start[i] = 0; nwrite[i] = 1;
 	  }
 
+	  if(nfile_axo >= MAXXGRIDFILE) mpp_error("make_coupler_mosaic: number of exchange grid files exceeds MAXXGRIDFILE, increase MAXXGRIDFILE");
 	  if(same_mosaic)
 	    sprintf(axo_file[nfile_axo], "atm_%s_%sXocn_%s_%s.nc", amosaic_name, atile_name[na], omosaic_name, otile_name[no]);
 	  else
@@ -2857,6 +2859,7 @@ int main (int argc, char *argv[])
 	    start[i] = 0; nwrite[i] = 1;
 	  }
 
+	  if(nfile_lxo >= MAXXGRIDFILE) mpp_error("make_coupler_mosaic: number of exchange grid files exceeds MAXXGRIDFILE, increase MAXXGRIDFILE");
 	  if(same_mosaic)
 	    sprintf(lxo_file[nfile_lxo], "lnd_%s_%sXocn_%s_%s.nc", lmosaic_name, ltile_name[nl], omosaic_name, otile_name[no]);
 	  else
@@ -3473,6 +3476,7 @@ int main (int argc, char *argv[])
 	    start[i] = 0; nwrite[i] = 1;
 	  }
 
+	  if(nfile_wxo >= MAXXGRIDFILE) mpp_error("make_coupler_mosaic: number of exchange grid files exceeds MAXXGRIDFILE, increase MAXXGRIDFILE");
 	  if(same_mosaic)
 	    sprintf(wxo_file[nfile_wxo], "wav_%s_%sXocn_%s_%s.nc", wmosaic_name, wtile_name[nw], omosaic_name, otile_name[no]);
 	  else
-- 
2.43.0


From 5677c3e3c08a19983768abe105fa6370c2b1acb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:39 +0000
Subject: [PATCH 22/37] fix: mppncscatter: do not treat a scalar variable as a
 record variable

For a variable without dimensions nc_inq_var leaves dimids alone, so a scalar
that follows a record variable was taken for a record variable and overwritten,
for every record, with the last piece of the previous variable's data.
---
 src/mpp-ncscatter/mppncscatter.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpp-ncscatter/mppncscatter.c b/src/mpp-ncscatter/mppncscatter.c
index 7bbe5a7..e143960 100644
--- a/src/mpp-ncscatter/mppncscatter.c
+++ b/src/mpp-ncscatter/mppncscatter.c
@@ -1010,8 +1010,8 @@ void put_var(int nc, int *ncids, int ndims, int nvars, ScatterDim *scatterdims[]
 	exit(-1);
       }
 
-      /* Skip nonrecord var. */
-      if ( (dimids[0] != recid) )
+      /* Skip nonrecord var (the dimension ids of a scalar are not set). */
+      if ( (ndimvar < 1) || (dimids[0] != recid) )
 	continue;
       ndimvar2 = ndimvar-1;
       if (ndimvar > 1) {
-- 
2.43.0


From e9df38a3f11ae694010c069ab1f063719e561f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:28 +0000
Subject: [PATCH 23/37] fix: mppncscatter: copy all of a variable with four or
 more dimensions

The 4-D copy, which only static variables use (the record dimension is not
passed to it), left the first dimension out: only its first index was copied
and the rest of the piece was written from an uninitialised buffer. With five
dimensions the index arrays on the stack were overrun.
---
 src/mpp-ncscatter/mppncscatter.c | 67 ++++++++------------------------
 1 file changed, 17 insertions(+), 50 deletions(-)

diff --git a/src/mpp-ncscatter/mppncscatter.c b/src/mpp-ncscatter/mppncscatter.c
index e143960..5ed611d 100644
--- a/src/mpp-ncscatter/mppncscatter.c
+++ b/src/mpp-ncscatter/mppncscatter.c
@@ -213,53 +213,14 @@ void hyperslabcopy(nc_type type, size_t *dimlen, int *dimids, size_t *start, siz
     }
     break;
   case 4:
-    i0 = start[1]*dimlen[dimids[2]]*dimlen[dimids[3]] +
-      start[2]*dimlen[dimids[3]] +
-      start[3];
-    stridek = dimlen[dimids[2]]*dimlen[dimids[3]];
-    stridej = dimlen[dimids[3]];
-
-    switch(type) {
-    case NC_BYTE: case NC_CHAR:
-      for(k=0; k < count[1]; ++k) {
-	for(j=0; j < count[2]; ++j) {
-	  memcpy(t+offset, ti+i0+k*stridek+j*stridej, count[3]*sizeof(char));
-	  offset += count[3];
-	}
-      }
-      break;
-    case NC_SHORT:
-      for(k=0; k < count[1]; ++k) {
-	for(j=0; j < count[2]; ++j) {
-	  memcpy(s+offset, si+i0+k*stridek+j*stridej, count[3]*sizeof(short));
-	  offset += count[3];
-	}
-      }
-      break;
-    case NC_INT:
-      for(k=0; k < count[1]; ++k) {
-	for(j=0; j < count[2]; ++j) {
-	  memcpy(i+offset, ii+i0+k*stridek+j*stridej, count[3]*sizeof(int));
-	  offset += count[3];
-	}
-      }
-      break;
-    case NC_FLOAT:
-      for(k=0; k < count[1]; ++k) {
-	for(j=0; j < count[2]; ++j) {
-	  memcpy(f+offset, fi+i0+k*stridek+j*stridej, count[3]*sizeof(float));
-	  offset += count[3];
-	}
-      }
-      break;
-    case NC_DOUBLE:
-      for(k=0; k < count[1]; ++k) {
-	for(j=0; j < count[2]; ++j) {
-	  memcpy(d+offset, di+i0+k*stridek+j*stridej, count[3]*sizeof(double));
-	  offset += count[3];
-	}
-      }
-      break;
+    /* One 3-D slab for each index of the first dimension. */
+    stridek = dimlen[dimids[1]]*dimlen[dimids[2]]*dimlen[dimids[3]];
+    for(k=0; k < count[0]; ++k) {
+      i0 = (start[0]+k)*stridek;
+      hyperslabcopy(type, dimlen, dimids+1, start+1, count+1, 3,
+		    ti+i0, si+i0, ii+i0, fi+i0, di+i0,
+		    t+offset, s+offset, i+offset, f+offset, d+offset);
+      offset += count[1]*count[2]*count[3];
     }
     break;
   }
@@ -707,9 +668,9 @@ void put_var(int nc, int *ncids, int ndims, int nvars, ScatterDim *scatterdims[]
 {
   int varid, xi, yi, i, j, status, varidnew, natt, ndimvar, recid, reci, dimi;
   size_t dimlen[NC_MAX_DIMS], size;
-  size_t instart[4];
-  size_t outstart[4] = {0,0,0,0};
-  size_t count[4], newlen;
+  size_t instart[5];
+  size_t outstart[5] = {0,0,0,0,0};
+  size_t count[5], newlen;
   size_t nrec = 0;
 
   size_t maxsize[5] = {0,0,0,0,0}; /* Array of maxsizes for each datatype. */
@@ -760,6 +721,11 @@ void put_var(int nc, int *ncids, int ndims, int nvars, ScatterDim *scatterdims[]
       exit(-1);
     }
 
+    if (ndimvar > 5 || (ndimvar == 5 && dimids[0] != recid)) {
+      fprintf(stderr, "Error. Variable %s has more than 4 dimensions besides the record dimension.\n", varname);
+      exit(-1);
+    }
+
     size = 1;
     for(i=0; i < ndimvar; ++i) {
       if (dimids[i] == recid)
@@ -1000,6 +966,7 @@ void put_var(int nc, int *ncids, int ndims, int nvars, ScatterDim *scatterdims[]
       instart[1] = 0;
       instart[2] = 0;
       instart[3] = 0;
+      instart[4] = 0;
       instart2[0] = 0;
       instart2[1] = 0;
       instart2[2] = 0;
-- 
2.43.0


From 6e17c3fe17012e6fd49024f2edf3f75df4776524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:28 +0000
Subject: [PATCH 24/37] fix: mppncscatter: look at each dimension's own
 attributes

foundunits kept its value from the previous dimension, so an axis that is only
marked by cartesian_axis was not scattered if it followed one with degrees as
units.
---
 src/mpp-ncscatter/mppncscatter.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mpp-ncscatter/mppncscatter.c b/src/mpp-ncscatter/mppncscatter.c
index 5ed611d..39aae0b 100644
--- a/src/mpp-ncscatter/mppncscatter.c
+++ b/src/mpp-ncscatter/mppncscatter.c
@@ -260,6 +260,7 @@ void get_scatter_dims(int nc, int ndims, int nvars, ScatterDim* scatterdims[], m
      Coordvar is x/y based on metadata, and shares dim name. */
   for(dimid=0; dimid < ndims; ++dimid) {
     scatter_type = NOSCATTER;
+    foundunits = 0;
     dimlen = 0;
     ndiv = 0;
 
-- 
2.43.0


From 9aa4879a43c66ea6185fe6b3598dec2533eef0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:37 +0000
Subject: [PATCH 25/37] fix: mppnccombine: refuse decomposed variables with too
 many dimensions

The merge loops handle four dimensions besides the record dimension. For more,
only the first index of the outer dimensions was merged and the rest of the
variable was written as zeros, with exit status zero.
---
 src/mpp-nccombine/mppnccombine.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mpp-nccombine/mppnccombine.c b/src/mpp-nccombine/mppnccombine.c
index f405dcd..826ce30 100644
--- a/src/mpp-nccombine/mppnccombine.c
+++ b/src/mpp-nccombine/mppnccombine.c
@@ -1612,6 +1612,14 @@ process_vars (struct fileinfo *ncinfile, struct fileinfo *ncoutfile,
             }
           if (mem_dry_run)
             continue;
+          if (ncinfile->varndims[v] - (varrecdim != (-1)) > 4)
+            {
+              fprintf (stderr,
+                       "Error: decomposed variable \"%s\" has more than 4 "
+                       "dimensions besides the record dimension!\n",
+                       ncinfile->varname[v]);
+              return (1);
+            }
           if (verbose > 1)
             printf ("      writing %lld bytes to memory\n",
                     nctypelen (ncinfile->datatype[v]) * recsize);
-- 
2.43.0


From 4178a1f986e056febb6e23f274c69db40ff2c5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:59 +0000
Subject: [PATCH 26/37] fix: make_vgrid: without --dbnds compare with no bounds
 at all

n3, the number of --dbnds entries, was read uninitialised when --nz does not
match --nbnds and --dbnds is not given.
---
 src/make-vgrid/make_vgrid.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/make-vgrid/make_vgrid.c b/src/make-vgrid/make_vgrid.c
index 0b9b06a..eb1a855 100644
--- a/src/make-vgrid/make_vgrid.c
+++ b/src/make-vgrid/make_vgrid.c
@@ -163,6 +163,7 @@ int main(int argc, char* argv[])
   nbnds = 0;
   n1 = 0;
   n2 = 0;
+  n3 = 0;
   while ((c = getopt_long(argc, argv, "", long_options, &option_index)) != -1)
     switch (c) {
     case 'n':
-- 
2.43.0


From 75e9039ff51fae9aedf36cecb6c0c2fc0892deb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:59 +0000
Subject: [PATCH 27/37] fix: mppnccombine: do not invent a number of files

An input file without NumFilesInSet left the number of files uninitialised, and
with the number of input files taken from it pieces could be left out.
---
 src/mpp-nccombine/mppnccombine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpp-nccombine/mppnccombine.c b/src/mpp-nccombine/mppnccombine.c
index 826ce30..b9c3f6a 100644
--- a/src/mpp-nccombine/mppnccombine.c
+++ b/src/mpp-nccombine/mppnccombine.c
@@ -935,7 +935,7 @@ process_file (char *ncname, unsigned char appendnc, struct fileinfo *ncoutfile,
               unsigned char missing, int deflate, int deflation, int shuffle)
 {
   struct fileinfo *ncinfile;   /* Information about an input netCDF file */
-  int nfiles2;                 /* Number of files in the decomposed domain */
+  int nfiles2 = *nfiles;       /* Number of files in the decomposed domain */
   int ncinformat, ncoutformat; /* Format of input and output netCDF files */
   int d, v, n;                 /* Loop variables */
   int dimid;                   /* ID of a dimension */
-- 
2.43.0


From 934679d4efbc38d98825a3ad952296aac64c0786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:59 +0000
Subject: [PATCH 28/37] fix: fregrid: a field without cell_measures does not
 use a volume

use_volume was set only for fields with the cell_measures attribute and read
uninitialised for all others, where it could switch off --target_grid.
---
 src/fre-grid/fregrid_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index bc1094b..11537d0 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -989,6 +989,7 @@ void get_input_metadata(int ntiles, int nfiles, File_config *file1, File_config
             }
           }
         }
+        field[n].var[ll].use_volume = 0;
         /* check if exist attribute "cell_measures" and get the name of area */
         if (mpp_var_att_exist(file[n].fid, field[n].var[ll].vid, "cell_measures")) {
           char attval[STRING] = "";
@@ -997,7 +998,6 @@ void get_input_metadata(int ntiles, int nfiles, File_config *file1, File_config
           int status;
 
           file[n].has_cell_measure_att = 1;
-          field[n].var[ll].use_volume = 0;
           /* --source_grid must be set when cell_measures attribute exists */
           mpp_get_var_att(file[n].fid, field[n].var[ll].vid, "cell_measures", attval);
 
-- 
2.43.0


From daf4adf5c3c698b888993fa7198d8c3f09abf831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:31 +0000
Subject: [PATCH 29/37] fix: check_mask: usage names --nobc, the option the
 tool accepts

---
 src/check-mask/check_mask.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/check-mask/check_mask.c b/src/check-mask/check_mask.c
index 9672842..1f1e346 100644
--- a/src/check-mask/check_mask.c
+++ b/src/check-mask/check_mask.c
@@ -32,7 +32,7 @@
 char *usage[] = {
   "",
   " check_mask --grid_file grid_file [--ocean_topog topog_file] [--min_pe #] [--max_pe #]  ",
-  "            [--halo #] [--sea_level #] [--show_valid_only] [--have_obc]                 ",
+  "            [--halo #] [--sea_level #] [--show_valid_only] [--nobc #]                   ",
   "            [--direction d(1)..,d(nobc)] [--is is(1)...,is(nobc)]                       ",
   "            [--ie ie(1)...,ie(nobc)], [--js js(1)...,js(nobc)], [--je je(1)...,je(nobc)]",
   "            [--layout layout(1),layout(2)] [--model model]                              ",
-- 
2.43.0


From c71b18ef6111514d442581869afc84913895ce1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:31 +0000
Subject: [PATCH 30/37] fix: fregrid: usage and manual no longer offer
 --monotonic, which is refused

---
 man/fregrid.txt        | 5 -----
 src/fre-grid/fregrid.c | 3 ---
 2 files changed, 8 deletions(-)

diff --git a/man/fregrid.txt b/man/fregrid.txt
index e3f5145..259eb16 100644
--- a/man/fregrid.txt
+++ b/man/fregrid.txt
@@ -202,11 +202,6 @@ conservative interpolation, center_y is assumed.
 Check the conservation of conservative interpolation. The area sum
 will be printed out for input and output mosaic.
 
-*--monotonic*::
-
-When specified, use monotonic interpolation when interp_method is
-'conserve_order2'.
-
 *--weight_file*::
 
 Specify the filename that store weight_field. The suffix '.tile#.nc'
diff --git a/src/fre-grid/fregrid.c b/src/fre-grid/fregrid.c
index e2911df..3cf822a 100644
--- a/src/fre-grid/fregrid.c
+++ b/src/fre-grid/fregrid.c
@@ -222,9 +222,6 @@ char *usage[] = {
   "                              The area sum will be printed out for input and output   ",
   "                              mosaic.                                                 ",
   "                                                                                      ",
-  "--monotonic                   When specified, use monotonic interpolation when        ",
-  "                              interp_method is 'conserve_order2'.                     ",
-  "                                                                                      ",
   "--weight_file                 Specify the filename that store weight_field. The       ",
   "                              suffix '.tile#.nc' should not present for multiple-tile ",
   "                              files. weight_field is used to adjust the source weight.",
-- 
2.43.0


From 9ce22ba9e117315d8879a30f76ff2a422974ffb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:31 +0000
Subject: [PATCH 31/37] fix: make_hgrid: usage and manual name the options the
 tool accepts

---
 man/make_hgrid.txt          | 4 ++--
 src/make-hgrid/make_hgrid.c | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/man/make_hgrid.txt b/man/make_hgrid.txt
index c329329..50d70fd 100644
--- a/man/make_hgrid.txt
+++ b/man/make_hgrid.txt
@@ -111,7 +111,7 @@ Specify number of meridional regions for varying resolution.
 
 *--xbnds* _x(1),...,x(nxbnds)_::
 Specify boundaries for defining zonal regions of varying resolution. When
---tripolar is present, x also defines the longitude of the two new poles. nxbnds
+a tripolar_grid is generated, x also defines the longitude of the two new poles. nxbnds
 must be 2 and lon_start = x(1), lon_end = x(nxbnds) are longitude of the two new
 poles.
 
@@ -218,7 +218,7 @@ When specified, great_circle_algorithm will be used to compute grid cell area.
 Extra halo size data to be written out. This is only works for grid type
 _gnomonic_ed_.
 
-*--non_length_angle*::
+*--no_length_angle*::
 When specified, will not output length(dx,dy) and angle (angle_dx, angle_dy)
 
 *--rotate_poly*::
diff --git a/src/make-hgrid/make_hgrid.c b/src/make-hgrid/make_hgrid.c
index df1d35b..dbfbb8f 100644
--- a/src/make-hgrid/make_hgrid.c
+++ b/src/make-hgrid/make_hgrid.c
@@ -77,7 +77,7 @@ char *usage[] = {
   "                  --nlat nlat(1),...nlat(nybnds-1)                               ",
   "                  --dlon dlon(1),...dlon(nxbnds)                                 ",
   "                  --dlat dlat(1),...dlat(nybnds)                                 ",
-  "                  --lat_join lat_join --num_lon num_lon --nratio nratio          ",
+  "                  --lat_join lat_join --nlon nlon --nratio nratio                ",
   "                  --simple_dx simple_dx --simple_dy simple_dy                    ",
   "                  --grid_name gridname --center center --verbose --shift_fac #   ",
   "                  --do_schmidt --stretch_fac # --target_lon # --target_lat #     ",
@@ -169,7 +169,7 @@ char *usage[] = {
   "                              resolution.                                        ",
   "                                                                                 ",
   "   --xbnds x(1),.,x(nxbnds)   Specify boundaries for defining zonal regions of   ",
-  "                              varying resolution. When --tripolar is present,    ",
+  "                              varying resolution. For a tripolar_grid,           ",
   "                              x also defines the longitude of the two new poles. ",
   "                              nxbnds must be 2 and lon_start = x(1),             ",
   "                              lon_end = x(nxbnds) are longitude of the two       ",
@@ -223,7 +223,7 @@ char *usage[] = {
   "                              has 'north' facing upward, which would make        ",
   "                              analysis and explaining nest placement much easier.",
   "                              When do_cube_transform is set, the following must  ",
-  "                              be set: --stretch_factor, --latget_lon, and        ",
+  "                              be set: --stretch_factor, --target_lon, and        ",
   "                              --target_lat.                                      ",
   "                                                                                 ",
   "   --stretch_factor #         Stretching factor for the grid                     ",
@@ -304,7 +304,7 @@ char *usage[] = {
   "                              The default is to use the angles that correspond   ",
   "                              to the spatial midpoint on the great circle        ",
   "                              between the model grid points.                     ",
-  "   --non_length_angle         When specified, will not output length(dx,dy) and  ",
+  "   --no_length_angle          When specified, will not output length(dx,dy) and  ",
   "                              angle (angle_dx, angle_dy)                         ",
   "                                                                                 ",
   "   --rotate_poly              Set to calculate polar polygon areas by caculating ",
-- 
2.43.0


From 8310c904abad4580b119577872dc8ceea9dc82ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:31 +0000
Subject: [PATCH 32/37] fix: make_topog: usage and manual name the options the
 tool accepts

---
 man/make_topog.txt          |  4 ++--
 src/make-topog/make_topog.c | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/man/make_topog.txt b/man/make_topog.txt
index b0db513..fed7629 100644
--- a/man/make_topog.txt
+++ b/man/make_topog.txt
@@ -64,8 +64,8 @@ _box_channel_::
 
 Generate a box_channel topography. The integral of the grid box is a float
 bottom. The boundary of the grid box is land except points
-[jwest_south:jwest_north] and [ieast_south:ieast_north]. *--jwest_south*,
-*--jwest_north*, *--ieast_south* and *--ieast_north* need to be specified.
+[jwest_south:jwest_north] and [jeast_south:jeast_north]. *--jwest_south*,
+*--jwest_north*, *--jeast_south* and *--jeast_north* need to be specified.
 *--bottom_depth* are optional arguments.
 
 _dome_::
diff --git a/src/make-topog/make_topog.c b/src/make-topog/make_topog.c
index 522fe6b..7db5642 100644
--- a/src/make-topog/make_topog.c
+++ b/src/make-topog/make_topog.c
@@ -46,7 +46,7 @@ char *usage[] = {
   "              [--dome_slope #] [--dome_bottom #], [--dome_embayment_west #]              ",
   "              [--dome_embayment_east # [--dome_embayment_south #]                        ",
   "              [--dome_embayment_depth #] [--vgrid_file vgrid_file] [--on_grid]           ",
-  "              [--flat_bottom] [--full_cell] [--fill_isolated_cells #]                    ",
+  "              [--flat_bottom] [--full_cell] [--dont_fill_isolated_cells]                 ",
   "              [--dont_change_landmask] [--kmt_min #] [--dont_adjust_topo ]               ",
   "              [--fraction_full_cell #] [--dont_open_very_this_cell ] [--min_thickness #] ",
   "              [--output output_file [--help] [--verbose]                                 ",
@@ -75,7 +75,7 @@ char *usage[] = {
   "                              --min_thickness  are optional arguments.                   ",
   "                                                                                         ",
   "     2.  'rectangular_basin': Constructing a rectangular basin with a flat bottom.       ",
-  "                              --bottome_depth are optional arguments. Set bottom_depth   ",
+  "                              --bottom_depth are optional arguments. Set bottom_depth    ",
   "                              to 0 to get all land topography.                           ",
   "                                                                                         ",
   "     3.  'gaussian':          Construct gaussian bump on a sloping bottom.               ",
@@ -91,8 +91,8 @@ char *usage[] = {
   "     6. 'box_channel':        Generate a box_channel topography. The interiol of the     ",
   "                              grid box is a flot bottom. The boundary of the grid        ",
   "                              box is land except points [jwest_south:jwest_north]        ",
-  "                              and [ieast_south:ieast_north]. --jwest_south, jwest_north, ",
-  "                              --ieast_south and ieast_north need to be specified.        ",
+  "                              and [jeast_south:jeast_north]. --jwest_south, jwest_north, ",
+  "                              --jeast_south and jeast_north need to be specified.        ",
   "                              --bottom_depth are optional arguments.                     ",
   "                                                                                         ",
   "     7. 'dome':               similar (not identical) to DOME configuration of           ",
@@ -261,7 +261,7 @@ char *usage[] = {
   "                                                                                         ",
   "   2. Generate 'rectangular_basin' topography (with uniform topography 200 meters).      ",
   "   > make_topog --mosaic mosaic.nc --topog_type  rectangular_basin                       ",
-  "                           --bottome_depth 200                                           ",
+  "                           --bottom_depth 200                                            ",
   "                                                                                         ",
   "   3. Generate 'box_channel' topography (with flat bottom topography 5000 meters).       ",
   "   > make_topog --mosaic mosaic.nc --topog_type  box_channel --jwest_south 20            ",
-- 
2.43.0


From 27dfc2b05897d204860537a70694911e0e2b3d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:31 +0000
Subject: [PATCH 33/37] fix: remap_land: usage and manual name
 --land_cold_restart

---
 man/remap_land.txt          | 4 ++--
 src/remap-land/remap_land.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/man/remap_land.txt b/man/remap_land.txt
index a0c27c0..8da0765 100644
--- a/man/remap_land.txt
+++ b/man/remap_land.txt
@@ -13,7 +13,7 @@ remap_land --src_mosaic src_mosaic --src_restart src_restart
            --dst_mosaic dst_mosaic --dst_restart dst_restart
            --dst_cold_restart dst_cold_restart
            --land_src_restart land_src_restart
-           --land_dst_cold_restart land_dst_cold_restart
+           --land_cold_restart land_cold_restart
            [--remap_file remap_file] [--print_memory]
 
 DESCRIPTION
@@ -60,7 +60,7 @@ specify --land_src_restart and --land_cold_restart
 specify the source file of land.res.nc. It is required when the
 restart file is snow.res or cana.res
 
-*land_dst_cold_restart* _file_::
+*--land_cold_restart* _file_::
 
 specify the destination file of land.res.nc. It is required when the
 restart file is snow.res or cana.res
diff --git a/src/remap-land/remap_land.c b/src/remap-land/remap_land.c
index 408cb9b..c1f07b2 100644
--- a/src/remap-land/remap_land.c
+++ b/src/remap-land/remap_land.c
@@ -66,7 +66,7 @@ char *usage[] = {
   "              --dst_mosaic dst_msoaic --dst_restart dst_restart                 ",
   "              --dst_cold_restart dst_cold_restart                               ",
   "              --land_src_restart land_src_restart                               ",
-  "              --land_dst_cold_restart land_dst_cold_restart                     ",
+  "              --land_cold_restart land_cold_restart                             ",
   "              [--remap_file remap_file] [--print_memory]                        ",
   "                                                                                ",
           " remap_land remap land restart file from one mosaic grid to another mosaic grid ",
@@ -104,7 +104,7 @@ char *usage[] = {
   "                              required when the restart file is snow.res or       ",
   "                              cana.res                                            ",
   "                                                                                  ",
-  " --land_dst_cold_restart file specify the destination file of land.res.nc. It is  ",
+  " --land_cold_restart file     specify the destination file of land.res.nc. It is  ",
   "                              required when the restart file is snow.res or       ",
   "                              cana.res                                            ",
   "                                                                                  ",
-- 
2.43.0


From 68bce898e046701d3092c67cde7e1e9eb839e5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:31 +0000
Subject: [PATCH 34/37] fix: river_regrid: usage and manual name --river_src

---
 man/river_regrid.txt            | 2 +-
 src/river-regrid/river_regrid.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/man/river_regrid.txt b/man/river_regrid.txt
index 61a0853..3ff32e0 100644
--- a/man/river_regrid.txt
+++ b/man/river_regrid.txt
@@ -66,7 +66,7 @@ Regrid the river network in the river_network_mrg_0.5deg_ad3nov_0.nc
 file on the the grid specified by the grid_spec.nc file.
 
 ----
-$ river_regrid --mosaic grid_spec.nc --river_srr \
+$ river_regrid --mosaic grid_spec.nc --river_src \
   river_network_mrg_0.5deg_ad3nov_0.125.nc --land_thresh 1.e-4 \
   --min_frac 0
 ----
diff --git a/src/river-regrid/river_regrid.c b/src/river-regrid/river_regrid.c
index 0cc8dd2..e0ff279 100644
--- a/src/river-regrid/river_regrid.c
+++ b/src/river-regrid/river_regrid.c
@@ -77,7 +77,7 @@ char *usage[] = {
   "                                                                                      ",
   "   Example:                                                                           ",
   "                                                                                      ",
-  " river_regrid --mosaic grid_spec.nc --river_srr river_network_mrg_0.5deg_ad3nov_0.125.nc ",
+  " river_regrid --mosaic grid_spec.nc --river_src river_network_mrg_0.5deg_ad3nov_0.125.nc ",
   "              --land_thresh 1.e-4 --min_frac 0                                        ",
   "                                                                                      ",
   NULL
-- 
2.43.0


From 7712b4a519ce911b636a9eea8360345e5b360c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:31 +0000
Subject: [PATCH 35/37] fix: runoff_regrid: usage names the options the tool
 accepts

---
 src/runoff-regrid/runoff_regrid.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/runoff-regrid/runoff_regrid.c b/src/runoff-regrid/runoff_regrid.c
index 206dfc0..ed3c40b 100644
--- a/src/runoff-regrid/runoff_regrid.c
+++ b/src/runoff-regrid/runoff_regrid.c
@@ -45,12 +45,12 @@ char *usage[] = {
   "",
   "  runoff_regrid --input_file input_file --input_fld_name input_fld_name        ",
   "                --output_mosaic output_mosaic --output_topog output_topog      ",
-  "                [--output_file output_file [--output_fid_name output_fid_name] ",
+  "                [--output_file output_file [--output_fld_name output_fld_name] ",
   "                                                                               ",
   "runoff_regrid expects to read runoff data from a netcdf file, which is         ",
   "specfied by option --input_file. The name of the runoff field in input         ",
   "file is specified by option --input_fld_name. The output file is a netcdf      ",
-  "file specified by opiton --output_fld_file. The name of the runoff field       ",
+  "file specified by opiton --output_file. The name of the runoff field           ",
   "in output file is specified by option output_fld_name. The output grid         ",
   "is specified by optoin --output_mosaic. The output grid topography is          ",
   "specified by option --output_topog output_topog. This tool only supports       ",
@@ -79,7 +79,7 @@ char *usage[] = {
   " --output_file output_file         specify the output file name. The default   ",
   "                                   value is runff.nc.                          ",
   "                                                                               ",
-  " --output_fid_name output_fid_name specify name of runoff field in output file,",
+  " --output_fld_name output_fld_name specify name of runoff field in output file,",
   "                                   The default value is runoff                 ",
   "                                                                               ",
   "                                                                               ",
-- 
2.43.0


From 8fe5d979b186fb33d6628d38784c2dac761018ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:31 +0000
Subject: [PATCH 36/37] fix: make_coupler_mosaic: usage shows the argument of
 --wave_mosaic

---
 src/make-coupler-mosaic/make_coupler_mosaic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/make-coupler-mosaic/make_coupler_mosaic.c b/src/make-coupler-mosaic/make_coupler_mosaic.c
index a7b7046..7016248 100644
--- a/src/make-coupler-mosaic/make_coupler_mosaic.c
+++ b/src/make-coupler-mosaic/make_coupler_mosaic.c
@@ -57,7 +57,7 @@
 char *usage[] = {
   "",
   "  make_coupler_mosaic --atmos_mosaic atmos_mosaic.nc --ocean_mosaic ocean_mosaic.nc      ",
-  "              --ocean_topog ocean_topog.nc [--land_mosaic land_mosaic.nc] [--wave_mosaic]",
+  "              --ocean_topog ocean_topog.nc [--land_mosaic land_mosaic.nc] [--wave_mosaic wave_mosaic.nc]",
   "              [--sea_level #]  [--interp_order #] [--mosaic_name mosaic_name]           ",
   "              [--area_ratio_thresh #] [--check ] [--verbose] [--print_memory]            ",
   " ",
-- 
2.43.0


From 75cbd9c32b84a1a4de99e110a829339abd845d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:00 +0000
Subject: [PATCH 37/37] fix: check_mask: --sea_level keeps its fraction

---
 src/check-mask/check_mask.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/check-mask/check_mask.c b/src/check-mask/check_mask.c
index 1f1e346..ce8ddc4 100644
--- a/src/check-mask/check_mask.c
+++ b/src/check-mask/check_mask.c
@@ -262,7 +262,7 @@ int main (int argc, char *argv[])
       halo = atoi(optarg);
       break;
     case 'f':
-      sea_level = atoi(optarg);
+      sea_level = atof(optarg);
       break;
     case 'g':
       show_valid_only = 1;
-- 
2.43.0

