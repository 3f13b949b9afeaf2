From 5eb54c04606b38aed655e824b717fa9d672b9bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 01/34] fix: use the loop's own coordinates to count mirrored
 points in mpbi integrals

The loops over real-space points were turned into LOOP_XYZ, whose indices are
i2_ (serial) and i2/i3 (MPI), but the mpbi-only branches kept reading j and k,
which nothing sets any more.
---
 mpb/fields.c        | 12 ++++++------
 mpb/material_grid.c |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index c154f11..61a9b0f 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -1346,11 +1346,11 @@ number compute_energy_in_object_list(geometric_object_list objects)
 			      int last_index;
 #  ifdef HAVE_MPI
 			      if (n3 == 1)
-				   last_index = j + local_y_start;
+				   last_index = i2;
 			      else
-				   last_index = k;
+				   last_index = i3;
 #  else
-			      last_index = j;
+			      last_index = i2_;
 #  endif
 			      if (last_index != 0 && 2*last_index != last_dim)
 				   energy_sum += energy[xyz_index];
@@ -1450,11 +1450,11 @@ cnumber compute_field_integral(function f)
 		    int last_index;
 #  ifdef HAVE_MPI
 		    if (n3 == 1)
-			 last_index = j + local_y_start;
+			 last_index = i2;
 		    else
-			 last_index = k;
+			 last_index = i3;
 #  else
-		    last_index = j;
+		    last_index = i2_;
 #  endif
 
 		    if (last_index != 0 && 2*last_index != last_dim) {
diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index 5ad25c2..c0e2de4 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -429,11 +429,11 @@ void material_grids_addgradient(double *v,
 		    int last_index;
 #  ifdef HAVE_MPI
 		    if (n3 == 1)
-			 last_index = j + local_y_start;
+			 last_index = i2;
 		    else
-			 last_index = k;
+			 last_index = i3;
 #  else
-		    last_index = j;
+		    last_index = i2_;
 #  endif
 
 		    if (last_index != 0 && 2*last_index != last_dim) {
-- 
2.43.0


From b21b508edd426531d65134b5cfc6a03e11f2d018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:10 +0000
Subject: [PATCH 02/34] fix: index the wavevector table without the FFT padding
 in compute-field-divergence

In mpbi the transform's rows are padded to last_dim_size, but k_plus_G has
last_dim entries per row: the divergence used the wrong wavevectors and read
past the end of the table.
---
 mpb/fields.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index 61a9b0f..8e5a250 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -388,7 +388,7 @@ void compute_field_divergence(void)
      for (i = 0; i < mdata->other_dims; ++i)
           for (j = 0; j < mdata->last_dim; ++j) {
                int ij = i * mdata->last_dim_size + j;
-	       k_data cur_k = mdata->k_plus_G[ij];
+	       k_data cur_k = mdata->k_plus_G[i * mdata->last_dim + j];
 	       /* k+G = |k+G| (m x n) */
 	       real kx = cur_k.kmag * (cur_k.my*cur_k.nz-cur_k.mz*cur_k.ny);
 	       real ky = cur_k.kmag * (cur_k.mz*cur_k.nx-cur_k.mx*cur_k.nz);
-- 
2.43.0


From 1220c2c021c82911090edb22545b00200785e85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:36 +0000
Subject: [PATCH 03/34] fix: make fix-field-phase choose the same sign for any
 number of processes

The index counts vector components, three per point, but was made global with
the number of points before this process, so which process held the last large
component could be misjudged.
---
 mpb/fields.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index 8e5a250..a8f5d54 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -512,7 +512,7 @@ void fix_field_phase(void)
 	  }
      }
      if (i >= 0)  /* convert index to global index in distributed array: */
-	  maxabs_index += mdata->local_y_start * mdata->nx * mdata->nz;
+	  maxabs_index += 3 * mdata->local_y_start * mdata->nx * mdata->nz;
      {
 	  /* compute maximum index and corresponding sign over all the
 	     processors, using the MPI_MAXLOC reduction operation: */
-- 
2.43.0


From bc9e6f20cb44dcbbedd2538b52251e67d0d1220a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:16 +0000
Subject: [PATCH 04/34] fix: let processes without data skip the other-half
 mapping in mpbi

FFTW reports a start of 0 for processes that own no planes, so the 3d branch
computed (nx - ix) % nx with nx == 0 and the job died with SIGFPE when writing
any field on more processes than planes.
---
 src/maxwell/maxwell_op.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/maxwell/maxwell_op.c b/src/maxwell/maxwell_op.c
index bd8bb76..a08cdb6 100644
--- a/src/maxwell/maxwell_op.c
+++ b/src/maxwell/maxwell_op.c
@@ -654,6 +654,8 @@ void maxwell_vectorfield_otherhalf(maxwell_data *d, scalar_complex *field,
 
 #  ifdef HAVE_MPI
      local_x_start = d->local_y_start;
+     if (d->local_ny == 0)
+	  return; /* no data on this process */
      CHECK(rank == 2 || rank == 3, "unsupported rfftwnd_mpi rank!");
      if (rank == 2) {
 	  n_other = nx;
@@ -858,6 +860,8 @@ void maxwell_cscalarfield_otherhalf(maxwell_data *d, scalar_complex *field,
 
 #  ifdef HAVE_MPI
      local_x_start = d->local_y_start;
+     if (d->local_ny == 0)
+	  return; /* no data on this process */
      CHECK(rank == 2 || rank == 3, "unsupported rfftwnd_mpi rank!");
      if (rank == 2) {
 	  n_other = nx;
@@ -1057,6 +1061,8 @@ void maxwell_scalarfield_otherhalf(maxwell_data *d, real *field)
 
 #  ifdef HAVE_MPI
      local_x_start = d->local_y_start;
+     if (d->local_ny == 0)
+	  return; /* no data on this process */
      CHECK(rank == 2 || rank == 3, "unsupported rfftwnd_mpi rank!");
      if (rank == 2) {
 	  n_other = nx;
-- 
2.43.0


From e88850d3611b826d0150429d38002e9ad10d876f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:13 +0000
Subject: [PATCH 05/34] fix: write nothing for a process without data in mpbi's
 parallel output

---
 mpb/fields.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mpb/fields.c b/mpb/fields.c
index a8f5d54..80287b0 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -1059,6 +1059,12 @@ void output_field_to_file(integer which_component, string filename_prefix)
 	  last_dim_start = local_dims[last_dim_index];
 	  last_dim_size = dims[last_dim_index] - local_dims[last_dim_index];
      }
+     if (local_dims[0] == 0) { /* no data here, so no other half either */
+	  first_dim_start = first_dim_size = 0;
+	  write_start0_special = 0;
+	  if (last_dim_index == 0)
+	       last_dim_start = last_dim_size = 0;
+     }
 #  endif /* ! SCALAR_COMPLEX */
      output_k[0] = R[1][0]*mdata->current_k[0] + R[1][1]*mdata->current_k[1]
 	  + R[1][2]*mdata->current_k[2];
-- 
2.43.0


From 13061e489844fbe357629b78b46c14306123d453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:09 +0000
Subject: [PATCH 06/34] fix: give each process its own random seed for the
 initial fields

---
 mpb/mpb.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mpb/mpb.c b/mpb/mpb.c
index 6341bd1..dc645e0 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -457,8 +457,14 @@ void init_params(integer p, boolean reset_fields)
 	  destroy_maxwell_data(mdata); mdata = NULL;
 	  curfield_reset();
      }
-     else
-	  srand(time(NULL)); /* init random seed for field initialization */
+     else {
+	  /* init random seed for field initialization; processes must not
+	     share a seed, or the fields repeat from one process to the
+	     next and may have a symmetry that the bands do not */
+	  int rank;
+	  MPI_Comm_rank(mpb_comm, &rank);
+	  srand(time(NULL) + 314159 * rank);
+     }
 
      if (deterministicp) {  /* check input variable "deterministic?" */
 	  /* seed should be the same for each run, although
-- 
2.43.0


From dfd8fb6c1473012724f13170991b81eb1d73890b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:00 +0000
Subject: [PATCH 07/34] fix: announce saving and loading of eigenvectors once,
 not on every process

---
 mpb/matrix-smob.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpb/matrix-smob.c b/mpb/matrix-smob.c
index da83721..c4f3bf5 100644
--- a/mpb/matrix-smob.c
+++ b/mpb/matrix-smob.c
@@ -370,14 +370,14 @@ SCM input_eigenvectors(char *filename, integer num_bands)
 void save_eigenvectors(char *filename)
 {
      CHECK(mdata, "init-params must be called before save-eigenvectors");
-     printf("Saving eigenvectors to \"%s\"...\n", filename);
+     mpi_one_printf("Saving eigenvectors to \"%s\"...\n", filename);
      evectmatrixio_writeall_raw(filename, H);
 }
 
 void load_eigenvectors(char *filename)
 {
      CHECK(mdata, "init-params must be called before load-eigenvectors");
-     printf("Loading eigenvectors from \"%s\"...\n", filename);
+     mpi_one_printf("Loading eigenvectors from \"%s\"...\n", filename);
      evectmatrixio_readall_raw(filename, H);
      curfield_reset();
 }
-- 
2.43.0


From 913b67a5a1a5b0c665fc1a7cd29a1fbededa324a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:48 +0000
Subject: [PATCH 08/34] fix: apply the Bloch phase to every component of a
 complex field, not three

fieldio_write_complex_field multiplied by exp(ikx) as if the field always had
three components, giving wrong phases (and writing out of bounds) for complex
scalar fields such as those of compute-field-divergence.
---
 src/matrixio/fieldio.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/matrixio/fieldio.c b/src/matrixio/fieldio.c
index 580ff47..6175c11 100644
--- a/src/matrixio/fieldio.c
+++ b/src/matrixio/fieldio.c
@@ -85,14 +85,16 @@ void fieldio_write_complex_field(scalar_complex *field,
 		    py.im = px.re * im + px.im * re;
 		    
 		    for (k = 0; k < local_dims[2]; ++k) {
-			 int ijk = ((i*local_dims[1] + j)*local_dims[2] + k)*3;
+			 int ijk = ((i*local_dims[1] + j)*local_dims[2] + k)
+			      * num_components;
 			 real p_re, p_im;
 			 real re = phasez[k].re, im = phasez[k].im;
 			 
 			 p_re = py.re * re - py.im * im;
 			 p_im = py.re * im + py.im * re;
 			 
-			 for (component = 0; component < 3; ++component) {
+			 for (component = 0; component < num_components;
+			      ++component) {
 			      int ijkc = ijk + component;
 			      re = field[ijkc].re; im = field[ijkc].im;
 			      field[ijkc].re = re * p_re - im * p_im;
-- 
2.43.0


From c719442d7a727f2c877550a670dcdbaed994b229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:25 +0000
Subject: [PATCH 09/34] fix: do not let measured CPU times steer a
 deterministic? run

deterministic? fixed the random seed only; the eigensolver still chose between
exact and approximate line minimization by how long its operations took, so
iteration counts and results differed from run to run.
---
 mpb/mpb.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpb/mpb.c b/mpb/mpb.c
index dc645e0..9798f24 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -642,6 +642,9 @@ void solve_kpoint(vector3 kvector)
      CHK_MALLOC(eigvals, real, num_bands);
 
      flags = eigensolver_flags; /* ctl file input variable */
+     /* otherwise, the measured CPU times choose the line minimization: */
+     if (deterministicp && !(flags & EIGS_FORCE_APPROX_LINMIN))
+	  flags |= EIGS_FORCE_EXACT_LINMIN;
      if (verbose)
 	  flags |= EIGS_VERBOSE;
 
-- 
2.43.0


From 8c2a6a539f87279668f079b35fcb05157e91fe06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 10/34] fix: do not multiply uninitialized vectors by zero in
 evectmatrix_aXpbY

With a == 0 the old contents of X were scaled instead of ignored. The Davidson
solver's preconditioner output is such a vector, and a NaN left in that memory
made it fail ("non-independent AV subspace").
---
 src/matrices/evectmatrix.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/matrices/evectmatrix.c b/src/matrices/evectmatrix.c
index b743432..06792ab 100644
--- a/src/matrices/evectmatrix.c
+++ b/src/matrices/evectmatrix.c
@@ -92,6 +92,14 @@ void evectmatrix_aXpbY(real a, evectmatrix X, real b, evectmatrix Y)
 {
      CHECK(X.n == Y.n && X.p == Y.p, "arrays not conformant");
      
+     if (a == 0.0 && X.data != Y.data) {
+	  /* don't multiply X by zero: it may be uninitialized (NaN) */
+	  evectmatrix_copy(X, Y);
+	  blasglue_rscal(X.n * X.p, b, X.data, 1);
+	  evectmatrix_flops += X.N * X.c * X.p * 3;
+	  return;
+     }
+
      if (a != 1.0)
 	  blasglue_rscal(X.n * X.p, a, X.data, 1);
 
-- 
2.43.0


From 2843cf6ee1561ef92006af65e40ab8215e0d9056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 11/34] fix: let no process leave matrixio_close before the
 last one has closed the file

Without parallel HDF5 the processes take turns at an output file.  The first
ones could go on to read it (epsilon-input-file, load-eigenvectors) before the
last had written its part.
---
 src/matrixio/matrixio.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/matrixio/matrixio.c b/src/matrixio/matrixio.c
index fb3e298..bce6e6a 100644
--- a/src/matrixio/matrixio.c
+++ b/src/matrixio/matrixio.c
@@ -429,7 +429,16 @@ void matrixio_close(matrixio_id id)
 {
 #if defined(HAVE_HDF5)
      CHECK(H5Fclose(id.id) >= 0, "error closing HDF file");
-     IF_EXCLUSIVE(if (id.parallel) mpi_end_critical_section(matrixio_critical_section_tag++),0);
+#  ifndef HAVE_H5PSET_FAPL_MPIO
+     if (id.parallel) {
+	  mpi_end_critical_section(matrixio_critical_section_tag++);
+#    ifdef HAVE_MPI
+	  /* the processes accessed the file in turn; don't let any of them
+	     go on (and e.g. read the file) until the last has closed it */
+	  MPI_Barrier(mpb_comm);
+#    endif
+     }
+#  endif
 #endif
 }
 
-- 
2.43.0


From c78a3e045b106c8f856b90ca6ebd311fac77a328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:52 +0000
Subject: [PATCH 12/34] fix: adapt the work space kept between runs when a mu
 appears or disappears

init_params kept the fields when only the presence of a permeability changed,
and with them a muinvH that aliased H (wrong bands with deflation) and the wrong
number of work arrays.
---
 mpb/mpb.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/mpb/mpb.c b/mpb/mpb.c
index 9798f24..321bb3b 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -507,6 +507,21 @@ void init_params(integer p, boolean reset_fields)
               muinvH = H;
           }
      }
+     else { /* only what depends on whether there is a mu may have changed */
+	  int nwork = eigensolver_nwork + (mdata->mu_inv!=NULL);
+	  while (nwork_alloc > nwork)
+	       destroy_evectmatrix(W[--nwork_alloc]);
+	  while (nwork_alloc < nwork)
+	       W[nwork_alloc++] = create_evectmatrix(nx * ny * nz, 2,
+						     block_size, local_N,
+						     N_start, alloc_N);
+	  if (muinvH.data != H.data)
+	       destroy_evectmatrix(muinvH);
+	  muinvH = H;
+	  if (using_mup() && block_size < num_bands)
+	       muinvH = create_evectmatrix(nx * ny * nz, 2, num_bands,
+					   local_N, N_start, alloc_N);
+     }
 
      mpi_one_printf("%d k-points:\n", k_points.num_items);
      for (i = 0; i < max_kpoints_print; ++i)
-- 
2.43.0


From b1570b40b2e98db30efa7a051a0a4d7627df8bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:08 +0000
Subject: [PATCH 13/34] fix: notice when HDF5 fails to create or write a
 dataset or attribute

---
 src/matrixio/matrixio.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/matrixio/matrixio.c b/src/matrixio/matrixio.c
index bce6e6a..4d68125 100644
--- a/src/matrixio/matrixio.c
+++ b/src/matrixio/matrixio.c
@@ -96,14 +96,16 @@ static void write_attr(matrixio_id id, matrixio_id_ type_id,
      if (H5I_FILE == H5Iget_type(id.id)) {
           attr_id = H5Dcreate(id.id, name, type_id, space_id, H5P_DEFAULT);
           CHECK(attr_id >= 0, "error creating HDF attr");
-          H5Dwrite(attr_id, type_id, H5S_ALL, H5S_ALL, H5P_DEFAULT, val);
-          H5Dclose(attr_id);
+          CHECK(H5Dwrite(attr_id, type_id, H5S_ALL, H5S_ALL, H5P_DEFAULT,
+			 val) >= 0, "error writing HDF attr");
+          CHECK(H5Dclose(attr_id) >= 0, "error closing HDF attr");
      }
      else {
 	  attr_id = H5Acreate(id.id, name, type_id, space_id, H5P_DEFAULT);
 	  CHECK(attr_id >= 0, "error creating HDF attr");
-	  H5Awrite(attr_id, type_id, val);
-	  H5Aclose(attr_id);
+	  CHECK(H5Awrite(attr_id, type_id, val) >= 0,
+		"error writing HDF attr");
+	  CHECK(H5Aclose(attr_id) >= 0, "error closing HDF attr");
      }
 #endif
 }
@@ -462,6 +464,7 @@ matrixio_id matrixio_create_sub(matrixio_id id,
 
 #  ifdef HAVE_H5PSET_FAPL_MPIO /* H5Gcreate is collective */
      sub_id.id = H5Gcreate(id.id, name, 0 /* ==> default size */ );
+     CHECK(sub_id.id >= 0, "error creating HDF group");
      matrixio_write_string_attr(sub_id, "description", description);
 #  else
      /* when running a parallel job, only the master process creates the
@@ -589,6 +592,8 @@ matrixio_id matrixio_create_dataset(matrixio_id id,
 	       data_id.id = H5Dopen(id.id, name),
 	  data_id.id = H5Dcreate(id.id, name, type_id, space_id, H5P_DEFAULT));
 
+     CHECK(data_id.id >= 0, "error creating HDF dataset");
+
      H5Sclose(space_id);  /* the dataset should have its own copy now */
      
      matrixio_write_string_attr(data_id, "description", description);
@@ -737,8 +742,9 @@ void matrixio_write_real_data(matrixio_id data_id,
      /* Write the data, then free all the stuff we've allocated. */
 
      if (do_write)
-	  H5Dwrite(data_id.id, type_id, mem_space_id, space_id, H5P_DEFAULT, 
-		   data_copy);
+	  CHECK(H5Dwrite(data_id.id, type_id, mem_space_id, space_id,
+			 H5P_DEFAULT, data_copy) >= 0,
+		"error writing HDF data");
 
      if (free_data_copy)
 	  free(data_copy);
-- 
2.43.0


From cbeb62d2b3b75e274400a47ae1fa2e91cfee4625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:38 +0000
Subject: [PATCH 14/34] fix: do not open an undefined dataset name when a file
 holds no dataset

---
 src/matrixio/matrixio.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/matrixio/matrixio.c b/src/matrixio/matrixio.c
index 4d68125..74584f6 100644
--- a/src/matrixio/matrixio.c
+++ b/src/matrixio/matrixio.c
@@ -803,7 +803,7 @@ real *matrixio_read_real_data(matrixio_id id,
 #if defined(HAVE_HDF5)
      hid_t space_id, type_id, data_id, mem_space_id;
      hsize_t *dims_copy, *maxdims;
-     char *dname;
+     char *dname = NULL;
      int i;
 
      CHECK(*rank > 0, "non-positive rank");
@@ -816,7 +816,8 @@ real *matrixio_read_real_data(matrixio_id id,
 	  strcpy(dname, name);
      }
      else {
-	  if (H5Giterate(id.id, "/", NULL, find_dataset, &dname) < 0)
+	  if (H5Giterate(id.id, "/", NULL, find_dataset, &dname) < 0
+	      || !dname)
 	       return NULL;
      }
      SUPPRESS_HDF5_ERRORS(data_id = H5Dopen(id.id, dname));
-- 
2.43.0


From 012e1e5a3fcc222d08ae80946c24bdd5814f3b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 15/34] fix: use the same tag for every file's critical section

---
 src/matrixio/matrixio.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/matrixio/matrixio.c b/src/matrixio/matrixio.c
index 74584f6..2231dfa 100644
--- a/src/matrixio/matrixio.c
+++ b/src/matrixio/matrixio.c
@@ -331,7 +331,11 @@ static char *add_fname_suffix(const char *fname)
 /*****************************************************************************/
 
 #ifndef HAVE_H5PSET_FAPL_MPIO
-static int matrixio_critical_section_tag = 0;
+/* A constant: counting the files would give different processes different
+   tags after groups of processes (divide_parallel_processes) accessed
+   different numbers of files.  Messages with the same tag can't get mixed
+   up, since they are received in the order in which they are sent. */
+static const int matrixio_critical_section_tag = 0;
 #endif
 
 static matrixio_id matrixio_create_(const char *fname, int parallel)
@@ -433,7 +437,7 @@ void matrixio_close(matrixio_id id)
      CHECK(H5Fclose(id.id) >= 0, "error closing HDF file");
 #  ifndef HAVE_H5PSET_FAPL_MPIO
      if (id.parallel) {
-	  mpi_end_critical_section(matrixio_critical_section_tag++);
+	  mpi_end_critical_section(matrixio_critical_section_tag);
 #    ifdef HAVE_MPI
 	  /* the processes accessed the file in turn; don't let any of them
 	     go on (and e.g. read the file) until the last has closed it */
-- 
2.43.0


From 733e3d00bd492e5240f1c4b40282a88b0b53016e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:33 +0000
Subject: [PATCH 16/34] fix: find the dominant plane wave's process in its own
 communicator

---
 src/maxwell/maxwell.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maxwell/maxwell.c b/src/maxwell/maxwell.c
index 6ef8f05..87930ce 100644
--- a/src/maxwell/maxwell.c
+++ b/src/maxwell/maxwell.c
@@ -344,7 +344,7 @@ void maxwell_dominant_planewave(maxwell_data *d, evectmatrix H, int band, double
 
     /* find kdom of biggest max_amp across all processes */
     local_res.amp = max_amp;
-    local_res.rank = my_global_rank();
+    MPI_Comm_rank(mpb_comm, &local_res.rank);
 
     global_res.amp = 0;
     global_res.rank = 0;
-- 
2.43.0


From 4ba856d18cc24f3b40a353c0a9220fa548b854ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:42 +0000
Subject: [PATCH 17/34] fix: reallocate the fields when the processes that
 share them change

---
 mpb/mpb.c | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/mpb/mpb.c b/mpb/mpb.c
index 321bb3b..ae2c90a 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -386,7 +386,7 @@ void init_params(integer p, boolean reset_fields)
 {
      int i, local_N, N_start, alloc_N;
      int nx, ny, nz;
-     int have_old_fields = 0;
+     int have_fields = 0, have_old_fields = 0;
      int block_size;
      int max_kpoints_print = (mpb_verbosity >= 2 ?
                               k_points.num_items :
@@ -440,19 +440,11 @@ void init_params(integer p, boolean reset_fields)
 	  block_size = num_bands;
 
      if (mdata) {  /* need to clean up from previous init_params call */
+	  have_fields = 1;
 	  if (nx == mdata->nx && ny == mdata->ny && nz == mdata->nz &&
 	      block_size == Hblock.alloc_p && num_bands == H.p &&
 	      eigensolver_nwork + (mdata->mu_inv!=NULL) == nwork_alloc)
 	       have_old_fields = 1; /* don't need to reallocate */
-	  else {
-	       destroy_evectmatrix(H);
-	       for (i = 0; i < nwork_alloc; ++i)
-		    destroy_evectmatrix(W[i]);
-	       if (Hblock.data != H.data)
-		    destroy_evectmatrix(Hblock);
-               if (muinvH.data != H.data)
-                   destroy_evectmatrix(muinvH);
-	  }
 	  destroy_maxwell_target_data(mtdata); mtdata = NULL;
 	  destroy_maxwell_data(mdata); mdata = NULL;
 	  curfield_reset();
@@ -479,6 +471,23 @@ void init_params(integer p, boolean reset_fields)
                                  block_size, NUM_FFT_BANDS);
      CHECK(mdata, "NULL mdata");
 
+     {    /* the processes that share the fields may have changed, too,
+	     and must agree (see divide_parallel_processes) */
+	  int keep = have_old_fields && local_N == H.localN &&
+	       N_start == H.Nstart && alloc_N == H.allocN;
+	  mpi_allreduce(&keep, &have_old_fields, 1, int, MPI_INT,
+			MPI_MIN, mpb_comm);
+     }
+     if (have_fields && !have_old_fields) {
+	  destroy_evectmatrix(H);
+	  for (i = 0; i < nwork_alloc; ++i)
+	       destroy_evectmatrix(W[i]);
+	  if (Hblock.data != H.data)
+	       destroy_evectmatrix(Hblock);
+	  if (muinvH.data != H.data)
+	       destroy_evectmatrix(muinvH);
+     }
+
      if (target_freq != 0.0)
 	  mtdata = create_maxwell_target_data(mdata, target_freq);
      else
-- 
2.43.0


From b39620721975eb098a72ca9729bc3678b4c7398a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:50 +0000
Subject: [PATCH 18/34] fix: let a serial program divide into one group, and
 only one

---
 src/util/mpi_utils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/mpi_utils.c b/src/util/mpi_utils.c
index 7a19cb5..5f5959c 100644
--- a/src/util/mpi_utils.c
+++ b/src/util/mpi_utils.c
@@ -83,7 +83,8 @@ int divide_parallel_processes(int numgroups)
     MPI_Comm_split(MPI_COMM_WORLD, mygroup, rank, &mpb_comm);
     return mygroup;
 #else
-    CHECK(numgroups != 1, "tried to split into more groups than processes");
+    CHECK(numgroups > 0, "numgroups must be > 0");
+    CHECK(numgroups == 1, "tried to split into more groups than processes");
     return 0;
 #endif
 }
-- 
2.43.0


From 4b8a56bc26cf46f504a14b3d9948b4318ff29e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:20 +0000
Subject: [PATCH 19/34] fix: run and print mpb-split's first chunk only once

---
 mpb/mpb-split-preinstall.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpb/mpb-split-preinstall.in b/mpb/mpb-split-preinstall.in
index 21b9717..a39a4e7 100755
--- a/mpb/mpb-split-preinstall.in
+++ b/mpb/mpb-split-preinstall.in
@@ -15,7 +15,7 @@ trap 'echo "killing subprocesses: $subprocesses"; kill -9 $subprocesses; rm -f $
 # to be output later.
 ./mpb interactive?=false k-split-index=0 k-split-num=$* &
 subprocesses="$subprocesses $!"
-i=0
+i=1
 while test `expr $i \< $1` = 1; do
     ./mpb interactive?=false k-split-index=$i k-split-num=$* > $tmpname.$i &
     subprocesses="$subprocesses $!"
@@ -24,7 +24,7 @@ done
 
 # After all mpb processes have finished, concatenate their outputs in order.
 wait
-i=0
+i=1
 while test `expr $i \< $1` = 1; do
     cat $tmpname.$i
     rm -f $tmpname.$i
-- 
2.43.0


From 0be2d326a40081fa72d01ec045830578bab37d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:45 +0000
Subject: [PATCH 20/34] fix: let mpb-split report that one of its processes
 failed

---
 mpb/mpb-split-preinstall.in | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mpb/mpb-split-preinstall.in b/mpb/mpb-split-preinstall.in
index a39a4e7..e1aa7bc 100755
--- a/mpb/mpb-split-preinstall.in
+++ b/mpb/mpb-split-preinstall.in
@@ -23,10 +23,15 @@ while test `expr $i \< $1` = 1; do
 done
 
 # After all mpb processes have finished, concatenate their outputs in order.
-wait
+status=0
+for pid in $subprocesses; do
+    wait $pid || status=1
+done
 i=1
 while test `expr $i \< $1` = 1; do
     cat $tmpname.$i
     rm -f $tmpname.$i
     i=`expr $i + 1`
 done
+
+exit $status # nonzero if any of the processes failed
-- 
2.43.0


From cacd69079b7b2a90471765ce13c1258681dbf500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:17 +0000
Subject: [PATCH 21/34] fix: report HDF5 attributes that cannot be read

---
 src/matrixio/matrixio.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/matrixio/matrixio.c b/src/matrixio/matrixio.c
index 2231dfa..a24fbf3 100644
--- a/src/matrixio/matrixio.c
+++ b/src/matrixio/matrixio.c
@@ -141,10 +141,12 @@ static void read_attr(matrixio_id id, matrixio_id attr_id,
 {
 #if defined(HAVE_HDF5)
      if (H5I_FILE == H5Iget_type(id.id)) {
-	  H5Dread(attr_id.id, mem_type_id, H5S_ALL, H5S_ALL, H5P_DEFAULT, val);
+	  CHECK(H5Dread(attr_id.id, mem_type_id, H5S_ALL, H5S_ALL,
+			H5P_DEFAULT, val) >= 0, "error reading HDF attr");
      }
      else {
-	  H5Aread(attr_id.id, mem_type_id, val);
+	  CHECK(H5Aread(attr_id.id, mem_type_id, val) >= 0,
+		"error reading HDF attr");
      }
 #endif
 }
-- 
2.43.0


From f5884883f041d06dbf552489c8d763977248a89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:50 +0000
Subject: [PATCH 22/34] fix: do not take unreadable datasets for missing ones

---
 src/matrixio/matrixio.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/matrixio/matrixio.c b/src/matrixio/matrixio.c
index a24fbf3..a4d39c5 100644
--- a/src/matrixio/matrixio.c
+++ b/src/matrixio/matrixio.c
@@ -110,6 +110,21 @@ static void write_attr(matrixio_id id, matrixio_id_ type_id,
 #endif
 }
 
+#if defined(HAVE_HDF5)
+/* Open the given dataset.  Returns a negative number if there is none by that
+   name, whereas one that exists and can't be opened is an error. */
+static hid_t open_existing_dataset(hid_t id, const char *name)
+{
+     hid_t data_id;
+     htri_t exists = 0;
+     SUPPRESS_HDF5_ERRORS(data_id = H5Dopen(id, name);
+			  if (data_id < 0)
+			       exists = H5Lexists(id, name, H5P_DEFAULT));
+     CHECK(exists == 0, "error opening HDF5 dataset");
+     return data_id;
+}
+#endif
+
 static matrixio_id open_attr(matrixio_id id, matrixio_id_ *type_id,
 			     matrixio_id_ *space_id, const char *name)
 {
@@ -118,14 +133,18 @@ static matrixio_id open_attr(matrixio_id id, matrixio_id_ *type_id,
      attr_id.id = -1;
 #if defined(HAVE_HDF5)
      if (H5I_FILE == H5Iget_type(id.id)) {
-          SUPPRESS_HDF5_ERRORS(attr_id.id = H5Dopen(id.id, name));
+          attr_id.id = open_existing_dataset(id.id, name);
 	  if (attr_id.id >= 0) {
 	       *type_id = H5Dget_type(attr_id.id);
 	       *space_id = H5Dget_space(attr_id.id);
 	  }
      }
      else {
-          SUPPRESS_HDF5_ERRORS(attr_id.id = H5Aopen_name(id.id, name));
+	  htri_t exists = 0;
+          SUPPRESS_HDF5_ERRORS(attr_id.id = H5Aopen_name(id.id, name);
+			       if (attr_id.id < 0)
+				    exists = H5Aexists(id.id, name));
+	  CHECK(exists == 0, "error opening HDF attr");
 	  if (attr_id.id >= 0) {
 	       *type_id = H5Aget_type(attr_id.id);
 	       *space_id = H5Aget_space(attr_id.id);
@@ -826,7 +845,7 @@ real *matrixio_read_real_data(matrixio_id id,
 	      || !dname)
 	       return NULL;
      }
-     SUPPRESS_HDF5_ERRORS(data_id = H5Dopen(id.id, dname));
+     data_id = open_existing_dataset(id.id, dname);
      free(dname);
      if (data_id < 0)
 	  return NULL;
-- 
2.43.0


From 64c53e6e6fe21c44183fc572e2de89a5689e9b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:50 +0000
Subject: [PATCH 23/34] fix: check in mpb-data that there is a Bloch wavevector
 before using it

---
 utils/mpb-data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/mpb-data.c b/utils/mpb-data.c
index 9031de4..2c8bf70 100644
--- a/utils/mpb-data.c
+++ b/utils/mpb-data.c
@@ -580,7 +580,7 @@ void handle_file(const char *fname, const char *out_fname,
 
      kvector = matrixio_read_data_attr(in_file, "Bloch wavevector",
 				       &rank, 1, dims);
-     if (rank != 1 || dims[0] != 3) {
+     if (!kvector || rank != 1 || dims[0] != 3) {
 	  free(kvector);
 	  kvector = NULL;
      }
-- 
2.43.0


From 76477df33ca77a5f7729404a2d569273fd8fcb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:45 +0000
Subject: [PATCH 24/34] fix: reflect randomized material-grid values about 1,
 not to 0

randomize-material-grid! mirrored u > 1 to 1 - u, moving values near 1 to
near 0 for arbitrarily small noise.
---
 mpb/material_grid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index c0e2de4..38af2ea 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -703,7 +703,7 @@ void randomize_material_gridB(material_grid g, number noise)
 	  for (i = 0; i < n; ++i) {
 	       double u = grid[i] + noise * (-1 + rand() * 2.0/RAND_MAX);
 	       while (u < 0 || u > 1) { /* mirror boundary conditions */
-		    if (u > 1) u = 1 - u;
+		    if (u > 1) u = 2 - u;
 		    if (u < 0) u = -u;
 	       }
 	       grid[i] = u;
-- 
2.43.0


From 4f4443a572f11122d7fe155db03a3093a8cfdb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:45 +0000
Subject: [PATCH 25/34] fix: sum the printed material-grid gradients over the
 processes

print-material-grids-gradient and material-grids-approx-gradient gave the
contribution of the first process' part of the cell only.
---
 mpb/material_grid.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index 38af2ea..d624b43 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -457,6 +457,15 @@ void material_grids_addgradient(double *v,
 /**************************************************************************/
 /* some routines mainly for debugging */
 
+/* sum over processes the gradients for their parts of the unit cell */
+static void sum_gradient(double *grad, int n)
+{
+     double *sum = (double *) malloc(sizeof(double) * n);
+     mpi_allreduce(grad, sum, n, double, MPI_DOUBLE, MPI_SUM, mpb_comm);
+     memcpy(grad, sum, sizeof(double) * n);
+     free(sum);
+}
+
 void print_material_grids_gradient(integer band)
 {
      int ngrids;
@@ -465,6 +474,7 @@ void print_material_grids_gradient(integer band)
      double *grad = (double *) malloc(sizeof(double) * ntot);
      for (i = 0; i < ntot; ++i) grad[i] = 0;
      material_grids_addgradient(grad, 1.0, band, grids, ngrids);
+     sum_gradient(grad, ntot);
      for (i = 0; i < ntot; ++i)
 	  mpi_one_printf(", %g", grad[i]);
      free(grad);
@@ -483,6 +493,7 @@ number material_grids_approx_gradient(vector3 kpoint, integer band,
      f0 = freqs.items[band-1];
      for (i = 0; i < ntot; ++i) u[i] = 0;
      material_grids_addgradient(u, 1.0, band, grids, ngrids);
+     sum_gradient(u, ntot);
      dfdu = u[iu];
      material_grids_get(u, grids, ngrids);
      u[iu] += du;
-- 
2.43.0


From 3e023e9d99e6dd4d120611db83bd803c74bfa06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:45 +0000
Subject: [PATCH 26/34] fix: initialize the whole gradient in
 material-grids-min-tetm-gap

Unlike in the gap optimization, there are no two extra variables here: the
last two components were uninitialized (and for n < 2 the size negative).
---
 mpb/material_grid_opt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpb/material_grid_opt.c b/mpb/material_grid_opt.c
index 1d8fcd0..0613073 100644
--- a/mpb/material_grid_opt.c
+++ b/mpb/material_grid_opt.c
@@ -56,7 +56,7 @@ static double mindiff_func(int n, const double *u, double *grad, void *data)
     d->iter++;
     material_grids_set(u, d->grids, d->ngrids);
     reset_epsilon();
-    if (grad) memset(work, 0, sizeof(double) * (n-2));
+    if (grad) memset(work, 0, sizeof(double) * n);
 
     set_maxwell_data_parity(mdata, EVEN_Z_PARITY);
     randomize_fields();
-- 
2.43.0


From 5aacd60669826d67bc100616a3d4aba284b0be0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:08 +0000
Subject: [PATCH 27/34] fix: print the epsilon derivatives of all points of the
 unit cell

print-material-grids-deps-du and its numeric variant used the index of a
point in the whole cell for the local epsilon array: wrong points, and
reading past the end, with several processes or inversion symmetry.
---
 mpb/material_grid.c | 65 ++++++++++++++++++++++++++++++---------------
 1 file changed, 44 insertions(+), 21 deletions(-)

diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index d624b43..b1474ad 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -510,6 +510,39 @@ number material_grids_approx_gradient(vector3 kpoint, integer band,
      return (f1 - f0) / du;
 }
 
+/* Set ep to the mean dielectric constants of all the n1*n2*n3 points of
+   the unit cell, in row-major order: some points may be on other processes
+   or, with inversion symmetry, be stored only by their inverses. */
+static void get_mean_epsilon(double *ep)
+{
+     int i, n1 = mdata->nx, n2 = mdata->ny, n3 = mdata->nz;
+     double *ep_local = (double *) malloc(sizeof(double) * (n1*n2*n3));
+
+     for (i = 0; i < n1*n2*n3; ++i) ep_local[i] = 0;
+
+     LOOP_XYZ(mdata) {
+	       double epval =
+		    mean_medium_from_matrix(mdata->eps_inv + xyz_index);
+
+	       ep_local[(i1 * n2 + i2) * n3 + i3] = epval;
+#ifndef SCALAR_COMPLEX
+	       {
+		    int i1c = i1 ? (n1 - i1) : 0;
+		    int i2c = i2 ? (n2 - i2) : 0;
+		    int i3c = i3 ? (n3 - i3) : 0;
+		    int last_index = n3 > 1 ? i3 : (n2 > 1 ? i2 : i1);
+
+		    if (last_index != 0 && 2*last_index != mdata->last_dim)
+			 ep_local[(i1c * n2 + i2c) * n3 + i3c] = epval;
+	       }
+#endif /* !SCALAR_COMPLEX */
+     }}}
+
+     mpi_allreduce(ep_local, ep, n1*n2*n3, double, MPI_DOUBLE,
+		   MPI_SUM, mpb_comm);
+     free(ep_local);
+}
+
 void print_material_grids_deps_du(void)
 {
      int i, j, k, n1, n2, n3;
@@ -518,8 +551,11 @@ void print_material_grids_deps_du(void)
      material_grid *grids = get_material_grids(geometry, &ngrids);
      int ntot = material_grids_ntot(grids, ngrids);
      double *v = (double *) malloc(sizeof(double) * ntot);
+     double *ep;
 
      n1 = mdata->nx; n2 = mdata->ny; n3 = mdata->nz;
+     ep = (double *) malloc(sizeof(double) * (n1*n2*n3));
+     get_mean_epsilon(ep);
 
      s1 = geometry_lattice.size.x / n1;
      s2 = geometry_lattice.size.y / n2;
@@ -619,8 +655,7 @@ void print_material_grids_deps_du(void)
      }
 
 	  gotmyv:
-     mpi_one_printf("depsdu:, %g, %d",
-		    mean_medium_from_matrix(mdata->eps_inv + index), index);
+     mpi_one_printf("depsdu:, %g, %d", ep[index], index);
      for (ig = 0; ig < ntot; ++ig)
 	  mpi_one_printf(", %g", v[ig]);
      mpi_one_printf("\n");
@@ -629,6 +664,7 @@ void print_material_grids_deps_du(void)
 	  }
      }
 
+     free(ep);
      free(v);
 }
 
@@ -642,36 +678,22 @@ void print_material_grids_deps_du_numeric(double du)
      double *u = (double *) malloc(sizeof(double) * ntot);
      double *v = (double *) malloc(sizeof(double) * (n1*n2*n3) * ntot);
      double *ep = (double *) malloc(sizeof(double) * (n1*n2*n3));
-     double *foo;
+     double *epn = (double *) malloc(sizeof(double) * (n1*n2*n3));
      int iu;
 
      material_grids_get(u, grids, ngrids);
      reset_epsilon();
 
-     ep[0] = 1.234;
-
-     for (i = 0; i < n1; ++i)
-	  for (j = 0; j < n2; ++j)
-	       for (k = 0; k < n3; ++k)
-     {
-	  int index = ((i * n2 + j) * n3 + k);
-	  ep[index] = mean_medium_from_matrix(mdata->eps_inv + index);
-     }
+     get_mean_epsilon(ep);
 
      for (iu = 0; iu < ntot; ++iu) {
 	  u[iu] += du;
 	  material_grids_set(u, grids, ngrids);
 	  reset_epsilon();
+	  get_mean_epsilon(epn);
 
-	  for (i = 0; i < n1; ++i)
-	       for (j = 0; j < n2; ++j)
-		    for (k = 0; k < n3; ++k)
-		    {
-			 int index = ((i * n2 + j) * n3 + k);
-			 double epn =
-			      mean_medium_from_matrix(mdata->eps_inv + index);
-			 v[index*ntot + iu] = (epn - ep[index]) / du;
-		    }
+	  for (i = 0; i < n1*n2*n3; ++i)
+	       v[i*ntot + iu] = (epn[i] - ep[i]) / du;
 	  u[iu] -= du;
      }
 
@@ -689,6 +711,7 @@ void print_material_grids_deps_du_numeric(double du)
      material_grids_set(u, grids, ngrids);
      reset_epsilon();
 
+     free(epn);
      free(ep);
      free(v);
      free(u);
-- 
2.43.0


From 226ad823de1e02f8c86394717bb6196926701025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:47 +0000
Subject: [PATCH 28/34] fix: check for failed allocations in the material-grid
 functions

They used the results of malloc and realloc unchecked, and crashed when
memory ran out, unlike the rest of the code.
---
 mpb/material_grid.c     | 31 +++++++++++++++++++------------
 mpb/material_grid_opt.c |  9 ++++-----
 2 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index b1474ad..14ac1b8 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -148,6 +148,7 @@ material_grid *get_material_grids(geometric_object_list g, int *ngrids)
 	       if (j >= nalloc) {
 		    nalloc = nalloc * 2 + 1;
 		    grids = realloc(grids, sizeof(material_grid) * nalloc);
+		    CHECK(grids, "out of memory!");
 	       }
 	       grids[j] = *g.items[i].material.subclass.material_grid_data;
 	       ++*ngrids;
@@ -163,6 +164,7 @@ material_grid *get_material_grids(geometric_object_list g, int *ngrids)
 	       if (j >= nalloc) {
 		    nalloc = nalloc * 2 + 1;
 		    grids = realloc(grids, sizeof(material_grid) * nalloc);
+		    CHECK(grids, "out of memory!");
 	       }
 	       grids[j] = *default_material.subclass.material_grid_data;
 	       ++*ngrids;
@@ -460,7 +462,8 @@ void material_grids_addgradient(double *v,
 /* sum over processes the gradients for their parts of the unit cell */
 static void sum_gradient(double *grad, int n)
 {
-     double *sum = (double *) malloc(sizeof(double) * n);
+     double *sum;
+     CHK_MALLOC(sum, double, n);
      mpi_allreduce(grad, sum, n, double, MPI_DOUBLE, MPI_SUM, mpb_comm);
      memcpy(grad, sum, sizeof(double) * n);
      free(sum);
@@ -471,7 +474,8 @@ void print_material_grids_gradient(integer band)
      int ngrids;
      material_grid *grids = get_material_grids(geometry, &ngrids);
      int i, ntot = material_grids_ntot(grids, ngrids);
-     double *grad = (double *) malloc(sizeof(double) * ntot);
+     double *grad;
+     CHK_MALLOC(grad, double, ntot);
      for (i = 0; i < ntot; ++i) grad[i] = 0;
      material_grids_addgradient(grad, 1.0, band, grids, ngrids);
      sum_gradient(grad, ntot);
@@ -487,8 +491,9 @@ number material_grids_approx_gradient(vector3 kpoint, integer band,
      int ngrids;
      material_grid *grids = get_material_grids(geometry, &ngrids);
      int i, ntot = material_grids_ntot(grids, ngrids);
-     double *u = (double *) malloc(sizeof(double) * ntot);
+     double *u;
      double f0, f1, dfdu;
+     CHK_MALLOC(u, double, ntot);
      solve_kpoint(kpoint);
      f0 = freqs.items[band-1];
      for (i = 0; i < ntot; ++i) u[i] = 0;
@@ -516,8 +521,9 @@ number material_grids_approx_gradient(vector3 kpoint, integer band,
 static void get_mean_epsilon(double *ep)
 {
      int i, n1 = mdata->nx, n2 = mdata->ny, n3 = mdata->nz;
-     double *ep_local = (double *) malloc(sizeof(double) * (n1*n2*n3));
+     double *ep_local;
 
+     CHK_MALLOC(ep_local, double, n1*n2*n3);
      for (i = 0; i < n1*n2*n3; ++i) ep_local[i] = 0;
 
      LOOP_XYZ(mdata) {
@@ -550,11 +556,11 @@ void print_material_grids_deps_du(void)
      int ngrids;
      material_grid *grids = get_material_grids(geometry, &ngrids);
      int ntot = material_grids_ntot(grids, ngrids);
-     double *v = (double *) malloc(sizeof(double) * ntot);
-     double *ep;
+     double *v, *ep;
 
+     CHK_MALLOC(v, double, ntot);
      n1 = mdata->nx; n2 = mdata->ny; n3 = mdata->nz;
-     ep = (double *) malloc(sizeof(double) * (n1*n2*n3));
+     CHK_MALLOC(ep, double, n1*n2*n3);
      get_mean_epsilon(ep);
 
      s1 = geometry_lattice.size.x / n1;
@@ -675,12 +681,13 @@ void print_material_grids_deps_du_numeric(double du)
      int ngrids;
      material_grid *grids = get_material_grids(geometry, &ngrids);
      int ntot = material_grids_ntot(grids, ngrids);
-     double *u = (double *) malloc(sizeof(double) * ntot);
-     double *v = (double *) malloc(sizeof(double) * (n1*n2*n3) * ntot);
-     double *ep = (double *) malloc(sizeof(double) * (n1*n2*n3));
-     double *epn = (double *) malloc(sizeof(double) * (n1*n2*n3));
+     double *u, *v, *ep, *epn;
      int iu;
 
+     CHK_MALLOC(u, double, ntot);
+     CHK_MALLOC(v, double, n1*n2*n3 * ntot);
+     CHK_MALLOC(ep, double, n1*n2*n3);
+     CHK_MALLOC(epn, double, n1*n2*n3);
      material_grids_get(u, grids, ngrids);
      reset_epsilon();
 
@@ -1039,7 +1046,7 @@ void material_grids_match_epsilon_fileB(string filename, number eps_tol)
      d.iter = 0;
 
      n = material_grids_ntot(d.grids, d.ngrids);
-     u = (double *) malloc(sizeof(double) * n * 5);
+     CHK_MALLOC(u, double, n * 5);
      lb = u + n; ub = lb + n; u_tol = ub + n; d.work = u_tol + n;
 
      material_grids_get(u, d.grids, d.ngrids);
diff --git a/mpb/material_grid_opt.c b/mpb/material_grid_opt.c
index 0613073..d43393e 100644
--- a/mpb/material_grid_opt.c
+++ b/mpb/material_grid_opt.c
@@ -101,7 +101,7 @@ number material_grids_min_tetm_gap(vector3 kpoint, integer band,
      d.grids = get_material_grids(geometry, &d.ngrids);
      d.iter = 0;
      n = material_grids_ntot(d.grids, d.ngrids);
-     u = (double *) malloc(sizeof(double) * n * 5);
+     CHK_MALLOC(u, double, n * 5);
      lb = u + n; ub = lb + n; u_tol = ub + n; d.work = u_tol + n;
 
      material_grids_get(u, d.grids, d.ngrids);
@@ -272,19 +272,18 @@ static number material_grids_maxmin_gap(boolean do_min,
      d.iter = 0;
      d.unsolved = 1;
      d.do_min = do_min;
-     d.f1s = (double *) malloc(sizeof(double) * kpoints.num_items*2);
+     CHK_MALLOC(d.f1s, double, kpoints.num_items*2);
      d.f2s = d.f1s + kpoints.num_items;
 
      n = material_grids_ntot(d.grids, d.ngrids) + 2;
-     u = (double *) malloc(sizeof(double) * n * 5);
+     CHK_MALLOC(u, double, n * 5);
      lb = u + n; ub = lb + n; u_tol = ub + n; d.work = u_tol + n;
 
      material_grids_get(u, d.grids, d.ngrids);
      u[n-1] = 0; /* band1 max */
      u[n-2] = HUGE_VAL; /* band2 min */
 
-     cdata = (band_constraint_data*) malloc(sizeof(band_constraint_data)
-					    * kpoints.num_items*2);
+     CHK_MALLOC(cdata, band_constraint_data, kpoints.num_items*2);
      for (i = 0; i < kpoints.num_items; ++i) {
 	  band_constraint_kind kind;
 	  for (kind = BAND1_CONSTRAINT; kind <= BAND2_CONSTRAINT; ++kind) {
-- 
2.43.0


From bfc9ce984c4afd655b8ecd49865302a5b1f380c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:47 +0000
Subject: [PATCH 29/34] fix: free the list of grids after matching or printing
 epsilon

material-grids-match-epsilon-file! and print-material-grids-deps-du lost it.
---
 mpb/material_grid.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index 14ac1b8..4e0fe92 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -672,6 +672,7 @@ void print_material_grids_deps_du(void)
 
      free(ep);
      free(v);
+     free(grids);
 }
 
 void print_material_grids_deps_du_numeric(double du)
@@ -722,6 +723,7 @@ void print_material_grids_deps_du_numeric(double du)
      free(ep);
      free(v);
      free(u);
+     free(grids);
 }
 
 /**************************************************************************/
@@ -1079,6 +1081,7 @@ void material_grids_match_epsilon_fileB(string filename, number eps_tol)
 		    sqrt(func_min), d.iter);
 
      free(u);
+     free(d.grids);
      free(d.eps);
 }
 
-- 
2.43.0


From 7e68fc092dadcf205b1d1ce90545629b911ac0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:37 +0000
Subject: [PATCH 30/34] fix: refuse operations on epsilon, fields and material
 grids that do not exist yet

---
 mpb/fields.c            |  6 +++++-
 mpb/material_grid.c     | 12 ++++++++++--
 mpb/material_grid_opt.c |  2 +-
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index 80287b0..9afb454 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -357,6 +357,7 @@ void compute_field_squared(void)
 
      if (!curfield || !strchr("dhbecv", curfield_type)) {
           mpi_one_fprintf(stderr, "A vector field must be loaded first.\n");
+          return;
      }
 
      curfield_type = 'c';  /* force it to just square the field */
@@ -373,13 +374,14 @@ void compute_field_divergence(void)
 {
      int i, j, N;
      scalar *field = (scalar *) curfield;
-     scalar *field2 = mdata->fft_data == mdata->fft_data2 ? field : (field == mdata->fft_data ? mdata->fft_data2 : mdata->fft_data);
+     scalar *field2;
      real scale;
 
      if (!curfield || !strchr("dhbec", curfield_type)) {
           mpi_one_fprintf(stderr, "A Bloch-periodic field must be loaded.\n");
           return;
      }
+     field2 = mdata->fft_data == mdata->fft_data2 ? field : (field == mdata->fft_data ? mdata->fft_data2 : mdata->fft_data);
 
      /* convert back to Fourier space */
      maxwell_compute_fft(-1, mdata, field, field2, 3, 3, 1);
@@ -659,6 +661,8 @@ static symmetric_matrix interp_eps_inv(vector3 p)
      int stride = sizeof(symmetric_matrix) / sizeof(real);
      symmetric_matrix eps_inv;
 
+     CHECK(mdata, "init-params must be called before get-epsilon-*point");
+
      eps_inv.m00 = f_interp_val(p, mdata, &mdata->eps_inv->m00, stride, 0);
      eps_inv.m11 = f_interp_val(p, mdata, &mdata->eps_inv->m11, stride, 0);
      eps_inv.m22 = f_interp_val(p, mdata, &mdata->eps_inv->m22, stride, 0);
diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index 4e0fe92..6b0d2e8 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -396,12 +396,14 @@ void material_grids_addgradient(double *v,
      real s1, s2, s3, c1, c2, c3;
      real *Esqr;
 
-     CHECK(band <= num_bands, "addgradient called for uncomputed band");
+     CHECK(band >= 0 && band <= num_bands && band <= freqs.num_items,
+	   "addgradient called for uncomputed band");
      if (band) {
 	  scalegrad *= -freqs.items[band - 1]/2;
 	  get_efield(band);
      }
      compute_field_squared();
+     CHECK(curfield && curfield_type == 'R', "addgradient called without a field");
      Esqr = (real *) curfield;
      scalegrad *= Vol / H.N;
 
@@ -493,6 +495,9 @@ number material_grids_approx_gradient(vector3 kpoint, integer band,
      int i, ntot = material_grids_ntot(grids, ngrids);
      double *u;
      double f0, f1, dfdu;
+     CHECK(iu >= 0 && iu < ntot, "invalid index in material-grids-approx-gradient");
+     CHECK(band > 0 && band <= num_bands,
+	   "invalid band number in material-grids-approx-gradient");
      CHK_MALLOC(u, double, ntot);
      solve_kpoint(kpoint);
      f0 = freqs.items[band-1];
@@ -558,6 +563,7 @@ void print_material_grids_deps_du(void)
      int ntot = material_grids_ntot(grids, ngrids);
      double *v, *ep;
 
+     CHECK(mdata, "init-params must be called before print-material-grids-deps-du");
      CHK_MALLOC(v, double, ntot);
      n1 = mdata->nx; n2 = mdata->ny; n3 = mdata->nz;
      CHK_MALLOC(ep, double, n1*n2*n3);
@@ -678,13 +684,15 @@ void print_material_grids_deps_du(void)
 void print_material_grids_deps_du_numeric(double du)
 {
      int i, j, k;
-     int n1 = mdata->nx, n2 = mdata->ny, n3 = mdata->nz;
+     int n1, n2, n3;
      int ngrids;
      material_grid *grids = get_material_grids(geometry, &ngrids);
      int ntot = material_grids_ntot(grids, ngrids);
      double *u, *v, *ep, *epn;
      int iu;
 
+     CHECK(mdata, "init-params must be called before print-material-grids-deps-du-numeric");
+     n1 = mdata->nx; n2 = mdata->ny; n3 = mdata->nz;
      CHK_MALLOC(u, double, ntot);
      CHK_MALLOC(v, double, n1*n2*n3 * ntot);
      CHK_MALLOC(ep, double, n1*n2*n3);
diff --git a/mpb/material_grid_opt.c b/mpb/material_grid_opt.c
index d43393e..b4aa884 100644
--- a/mpb/material_grid_opt.c
+++ b/mpb/material_grid_opt.c
@@ -95,7 +95,7 @@ number material_grids_min_tetm_gap(vector3 kpoint, integer band,
      double *u, *lb, *ub, *u_tol, func_min;
      int have_uprod;
 
-     CHECK(band <= num_bands, "invalid band number in material-grid-min-tetm-gap");
+     CHECK(band > 0 && band <= num_bands, "invalid band number in material-grid-min-tetm-gap");
      d.k = kpoint;
      d.b = band;
      d.grids = get_material_grids(geometry, &d.ngrids);
-- 
2.43.0


From 3f5b15a091abe1329e1bf806d78967a71c12f67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:41 +0000
Subject: [PATCH 31/34] fix: let a run without bands compute nothing but
 epsilon, and refuse impossible numbers of bands and grid points

---
 mpb/mpb.c             | 6 +++++-
 src/maxwell/maxwell.c | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/mpb/mpb.c b/mpb/mpb.c
index ae2c90a..2faecee 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -407,6 +407,9 @@ void init_params(integer p, boolean reset_fields)
 
      get_grid_size_n(&nx, &ny, &nz);
 
+     CHECK(num_bands >= 0, "num-bands must not be negative");
+     CHECK(nx > 0 && ny > 0 && nz > 0, "invalid grid size");
+
      {
 	  int true_rank = nz > 1 ? 3 : (ny > 1 ? 2 : 1);
 	  if (true_rank < dimensions)
@@ -426,7 +429,8 @@ void init_params(integer p, boolean reset_fields)
      mpi_one_printf("Working in %d dimensions.\n", dimensions);
      mpi_one_printf("Grid size is %d x %d x %d.\n", nx, ny, nz);
 
-     if (eigensolver_block_size != 0 && eigensolver_block_size < num_bands) {
+     if (num_bands > 0 &&
+	 eigensolver_block_size != 0 && eigensolver_block_size < num_bands) {
 	  block_size = eigensolver_block_size;
 	  if (block_size < 0) {
 	       /* Guess a block_size near -block_size, chosen so that
diff --git a/src/maxwell/maxwell.c b/src/maxwell/maxwell.c
index 87930ce..ad3de1c 100644
--- a/src/maxwell/maxwell.c
+++ b/src/maxwell/maxwell.c
@@ -56,7 +56,8 @@ maxwell_data *create_maxwell_data(int nx, int ny, int nz,
      d->ny = ny;
      d->nz = nz;
 
-     d->max_fft_bands = MIN2(num_bands, max_fft_bands);
+     /* fft_data holds epsilon etcetera even if there are no bands */
+     d->max_fft_bands = MAX2(MIN2(num_bands, max_fft_bands), 1);
      maxwell_set_num_bands(d, num_bands);
 
      d->current_k[0] = d->current_k[1] = d->current_k[2] = 0.0;
-- 
2.43.0


From 896e91dec05321455a68390e68c2a86859f54e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:58 +0000
Subject: [PATCH 32/34] fix: add the .h5 suffix unless the file name ends in it

---
 src/matrixio/matrixio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrixio/matrixio.c b/src/matrixio/matrixio.c
index a4d39c5..a243c2b 100644
--- a/src/matrixio/matrixio.c
+++ b/src/matrixio/matrixio.c
@@ -343,7 +343,7 @@ static char *add_fname_suffix(const char *fname)
      strcpy(new_fname, fname);
 
      /* only add suffix if it is not already there: */
-     if (strstr(new_fname, FNAME_SUFFIX) != new_fname + oldlen - suflen)
+     if (oldlen < suflen || strcmp(new_fname + oldlen - suflen, FNAME_SUFFIX))
 	  strcat(new_fname, FNAME_SUFFIX);
 
      return new_fname;
-- 
2.43.0


From b9c6adbf126c24c8ace0f45bafc72221487a3242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:58 +0000
Subject: [PATCH 33/34] fix: mpb-data: accept dataset names of any length

---
 utils/mpb-data.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/utils/mpb-data.c b/utils/mpb-data.c
index 2c8bf70..49471cf 100644
--- a/utils/mpb-data.c
+++ b/utils/mpb-data.c
@@ -258,7 +258,7 @@ void handle_dataset(matrixio_id in_file, matrixio_id out_file,
      int i, N;
      int start[3] = {0,0,0};
      matrixio_id data_id;
-     char out_name[1000];
+     char *out_name = NULL;
 
      d_in_re = matrixio_read_real_data(in_file, name_re, &rank, in_dims,
 				       0, 0, 0, NULL);
@@ -338,6 +338,8 @@ void handle_dataset(matrixio_id in_file, matrixio_id out_file,
 	  }
      }
 
+     out_name = (char *) malloc(sizeof(char) * (strlen(name_re) + 5));
+     CHECK(out_name, "out of memory");
      strcpy(out_name, name_re);
      if (out_file.id == in_file.id)
 	  strcat(out_name, "-new");
@@ -348,6 +350,9 @@ void handle_dataset(matrixio_id in_file, matrixio_id out_file,
      matrixio_close_dataset(data_id);
 
      if (d_out_im) {
+	  free(out_name);
+	  out_name = (char *) malloc(sizeof(char) * (strlen(name_im) + 5));
+	  CHECK(out_name, "out of memory");
 	  strcpy(out_name, name_im);
 	  if (out_file.id == in_file.id)
 	       strcat(out_name, "-new");
@@ -363,6 +368,7 @@ void handle_dataset(matrixio_id in_file, matrixio_id out_file,
 	  printf("Successfully wrote out data.\n");
 
  done:
+     free(out_name);
      free(d_in_re);
      free(d_in_im);
      free(d_out_re);
@@ -690,11 +696,15 @@ void handle_file(const char *fname, const char *out_fname,
 
      for (i = 0; i < NUM_DATANAMES; ++i) {
 	  const char *dname = datanames[i];
-	  char name_re[300], name_im[300];
+	  char *name_re, *name_im;
 
 	  if (data_name)
 	       dname = data_name;
 
+	  name_re = (char *) malloc(sizeof(char) * (strlen(dname) + 3));
+	  name_im = (char *) malloc(sizeof(char) * (strlen(dname) + 3));
+	  CHECK(name_re && name_im, "out of memory");
+
 	  strcpy(name_re, dname);
 	  handle_dataset(in_file, out_file, name_re, NULL,
 			 Rout, coord_map, kvector, resolution,
@@ -706,6 +716,9 @@ void handle_file(const char *fname, const char *out_fname,
 			 Rout, coord_map, kvector, resolution,
 			 scaleby, multiply_size, pick_nearest, transpose);
 
+	  free(name_re);
+	  free(name_im);
+
 	  if (data_name)
 	       break;
      }
-- 
2.43.0


From 0970dc94361ddc59374b7c0adc27af492b94c747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:39 +0000
Subject: [PATCH 34/34] fix: return zero, not garbage, as the group velocity
 before anything is solved

---
 mpb/mpb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpb/mpb.c b/mpb/mpb.c
index 2faecee..42cb634 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -988,7 +988,7 @@ number compute_1_group_velocity_component(vector3 d, integer b)
 {
      real u[3];
      int ib = b - 1;
-     real group_v, scratch;
+     real group_v = 0, scratch;
 
      curfield_reset();
 
-- 
2.43.0

