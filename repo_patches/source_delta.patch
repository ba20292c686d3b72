From 75c8b8e7a224edaaa90e5ffc300299cae39aca0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:14 +0000
Subject: [PATCH 001/150] fix: do not leak a pool connection on each
 insert_nightly_stats call

---
 rubin_sim/sim_archive/vseqmetadata.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index 6e4fcb0..7f37b6f 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -1296,8 +1296,7 @@ class VisitSequenceArchiveMetadata:
 
         # pandas to_sql fails with the native psycopg2, only
         # works with sqlalchemy
-        engine = sqlalchemy.create_engine("postgresql+psycopg2://", creator=self.pg_pool.getconn)
-        with engine.connect() as conn:
+        with self.sa_engine.connect() as conn:
             num_rows_added = stats_df.to_sql(
                 "nightly_stats", conn, schema=self.metadata_db_schema, if_exists="append", index=False
             )
-- 
2.43.0


From e0c6722ddc16959bbc113f88505c3fa8f99b3e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:14 +0000
Subject: [PATCH 002/150] fix: make simulation night queries without tags valid
 SQL

---
 rubin_sim/sim_archive/vseqmetadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index 7f37b6f..e670330 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -1473,7 +1473,7 @@ class VisitSequenceArchiveMetadata:
             FROM {}.simulations_extra AS s
             WHERE %s BETWEEN first_day_obs AND last_day_obs
                 AND %s BETWEEN first_day_obs AND last_day_obs
-                AND telescope = %
+                AND telescope = %s
                 AND creation_time >= NOW() - INTERVAL '%s days'
             """
             query_params = (first_day_obs, last_day_obs, telescope, max_simulation_age)
@@ -1560,7 +1560,7 @@ class VisitSequenceArchiveMetadata:
             FROM {}.simulations_extra AS s
             LEFT JOIN aggstats AS ns ON s.visitseq_uuid=ns.visitseq_uuid
             WHERE %s BETWEEN first_day_obs AND last_day_obs
-                AND telescope = %
+                AND telescope = %s
                 AND creation_time >= NOW() - INTERVAL '%s days'
             """
             query_params = (day_obs, day_obs, telescope, max_simulation_age)
-- 
2.43.0


From b4e4d50a67ff615a96b11c3d1e314af19ad79b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:14 +0000
Subject: [PATCH 003/150] fix: require conda_env_hash and conda_env_json to be
 given together

---
 rubin_sim/sim_archive/vseqmetadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index e670330..0641de6 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -1365,7 +1365,7 @@ class VisitSequenceArchiveMetadata:
             ``None`` (the default) uses the current
             conda environment.
         """
-        if conda_env_hash is None != conda_env_json is None:
+        if (conda_env_hash is None) != (conda_env_json is None):
             raise ValueError("conda_env_hash and conda_env_json must both be set, or neither.")
 
         if conda_env_hash is None:
-- 
2.43.0


From afadb11c7e19632fa8c1a99c100377f7a3cff83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:14 +0000
Subject: [PATCH 004/150] fix: name the file type in the duplicate file
 registration error

---
 rubin_sim/sim_archive/vseqmetadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index 0641de6..ed81f4e 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -1153,7 +1153,7 @@ class VisitSequenceArchiveMetadata:
 
         if already_exists:
             if not update:
-                raise ValueError("A file of type {file_type} is already registered for {visitseq_uuid}")
+                raise ValueError(f"A file of type {file_type} is already registered for {visitseq_uuid}")
 
             query = sql.SQL(
                 "UPDATE {}.files SET file_sha256={}, file_url={} WHERE visitseq_uuid={} AND file_type={}"
-- 
2.43.0


From 8019bef061a2013f18bb77565fd575b9930d4eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:14 +0000
Subject: [PATCH 005/150] fix: accept integer parent_last_day_obs in
 record_simulation_metadata

---
 rubin_sim/sim_archive/vseqmetadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index ed81f4e..c05c2e9 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -705,7 +705,7 @@ class VisitSequenceArchiveMetadata:
 
         if parent_last_day_obs is not None:
             set_clauses.append(make_set_clause("parent_last_day_obs"))
-            data["parent_last_day_obs"] = parent_last_day_obs
+            data["parent_last_day_obs"] = dayobs_to_date(parent_last_day_obs)
 
         num_columns_to_update = len(set_clauses)
 
-- 
2.43.0


From aff87efe45cb2a6a9009032ac39ebd6d575e5735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:53 +0000
Subject: [PATCH 006/150] fix: record a visit sequence and its kind-specific
 metadata atomically

---
 rubin_sim/sim_archive/vseqmetadata.py | 172 ++++++++------------------
 1 file changed, 51 insertions(+), 121 deletions(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index c05c2e9..f75353b 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -434,7 +434,32 @@ class VisitSequenceArchiveMetadata:
         registered with the ``record_simulation_metadata`` and
         ``record_completed_metadata`` methods instead.
         """
+        return self._insert_visitseq(
+            visits,
+            label,
+            telescope=telescope,
+            table=table,
+            url=url,
+            first_day_obs=first_day_obs,
+            last_day_obs=last_day_obs,
+            creation_time=creation_time,
+        )
 
+    def _insert_visitseq(
+        self,
+        visits: pd.DataFrame,
+        label: str,
+        telescope: str,
+        table: str,
+        url: str | None,
+        first_day_obs: date | int | str | None,
+        last_day_obs: date | int | str | None,
+        creation_time: Time | None,
+        extra_data: Mapping[str, Any] | None = None,
+    ) -> UUID:
+        # Insert the row for a visit sequence, including the columns
+        # specific to its table (extra_data), in one statement, so that
+        # a visit sequence can never be only partially recorded.
         sha256 = compute_visits_sha256(visits)
 
         columns = [
@@ -481,6 +506,11 @@ class VisitSequenceArchiveMetadata:
             data_placeholders.append(sql.Placeholder("creation_time"))
             data["creation_time"] = creation_datetime
 
+        for column, value in (extra_data or {}).items():
+            columns.append(sql.Identifier(column))
+            data_placeholders.append(sql.Placeholder(column))
+            data[column] = value
+
         query = sql.SQL("INSERT INTO {}.{} ({}) VALUES ({}) RETURNING visitseq_uuid").format(
             sql.Identifier(self.metadata_db_schema),
             sql.Identifier(table),
@@ -644,39 +674,17 @@ class VisitSequenceArchiveMetadata:
         visitseq_uuid : UUID
             The UUID of the new visit sequence.
         """
-        # I would have preferred to use kwargs here, but was not
-        # able to get type checking happy with it.
-        visitseq_uuid = self.record_visitseq_metadata(
-            visits,
-            label,
-            telescope=telescope,
-            table="simulations",
-            url=url,
-            first_day_obs=first_day_obs,
-            last_day_obs=last_day_obs,
-            creation_time=creation_time,
-        )
-
-        def make_set_clause(column: str) -> sql.Composed:
-            set_clause = sql.SQL("{} = {}").format(sql.Identifier(column), sql.Placeholder(column))
-            return set_clause
-
-        set_clauses = []
         data: Dict[str, Any] = {}
         if scheduler_version is not None:
-            set_clauses.append(make_set_clause("scheduler_version"))
             data["scheduler_version"] = scheduler_version
 
         if config_url is not None:
-            set_clauses.append(make_set_clause("config_url"))
             data["config_url"] = config_url
 
         if conda_env_sha256 is not None:
-            set_clauses.append(make_set_clause("conda_env_sha256"))
             data["conda_env_sha256"] = conda_env_sha256
 
         if parent_visitseq_uuid is not None:
-            set_clauses.append(make_set_clause("parent_visitseq_uuid"))
             data["parent_visitseq_uuid"] = str(parent_visitseq_uuid)
 
         if sim_runner_kwargs is not None:
@@ -700,39 +708,22 @@ class VisitSequenceArchiveMetadata:
                     else sim_runner_kwargs[key]
                 )
 
-            set_clauses.append(make_set_clause("sim_runner_kwargs"))
             data["sim_runner_kwargs"] = psycopg2.extras.Json(sim_runner_munged_kwargs)
 
         if parent_last_day_obs is not None:
-            set_clauses.append(make_set_clause("parent_last_day_obs"))
             data["parent_last_day_obs"] = dayobs_to_date(parent_last_day_obs)
 
-        num_columns_to_update = len(set_clauses)
-
-        if num_columns_to_update > 0:
-            query = sql.SQL("UPDATE {}.simulations SET {} WHERE visitseq_uuid={} RETURNING *;").format(
-                sql.Identifier(self.metadata_db_schema),
-                sql.SQL(", ").join(set_clauses),
-                sql.Placeholder("visitseq_uuid"),
-            )
-            data["visitseq_uuid"] = visitseq_uuid
-
-            conn = None
-            try:
-                conn = self.pg_pool.getconn()
-                cursor = conn.cursor()
-                cursor.execute(query, data)
-                result = cursor.fetchall()
-
-                # Be extra cautious, and check that everything looks
-                # reasonable before commiting the update.
-                assert len(result) == 1
-                cursor.execute("COMMIT;")
-            finally:
-                if conn:
-                    self.pg_pool.putconn(conn)
-
-        return visitseq_uuid
+        return self._insert_visitseq(
+            visits,
+            label,
+            telescope=telescope,
+            table="simulations",
+            url=url,
+            first_day_obs=first_day_obs,
+            last_day_obs=last_day_obs,
+            creation_time=creation_time,
+            extra_data=data,
+        )
 
     def update_visitseq_metadata(self, visitseq_uuid: UUID, field: str, value: object) -> None:
         """Update a single metadata field for a visit sequence.
@@ -804,9 +795,7 @@ class VisitSequenceArchiveMetadata:
             The UUID of the new visit sequence.
         """
 
-        # I would have preferred to use kwargs here, but was not
-        # able to get type checking happy with it.
-        visitseq_uuid = self.record_visitseq_metadata(
+        return self._insert_visitseq(
             visits,
             label,
             telescope=telescope,
@@ -815,35 +804,9 @@ class VisitSequenceArchiveMetadata:
             first_day_obs=first_day_obs,
             last_day_obs=last_day_obs,
             creation_time=creation_time,
+            extra_data={} if query is None else {"query": query},
         )
 
-        if query is not None:
-            composed_query = sql.SQL(
-                "UPDATE {}.completed SET query={} WHERE visitseq_uuid={} RETURNING *"
-            ).format(
-                sql.Identifier(self.metadata_db_schema),
-                sql.Placeholder("query"),
-                sql.Placeholder("visitseq_uuid"),
-            )
-            data = {"query": query, "visitseq_uuid": visitseq_uuid}
-
-            conn = None
-            try:
-                conn = self.pg_pool.getconn()
-                cursor = conn.cursor()
-                cursor.execute(composed_query, data)
-                result = cursor.fetchall()
-
-                # Be extra cautious, and check that everything looks
-                # reasonable before commiting the update.
-                assert len(result) == 1
-                cursor.execute("COMMIT;")
-            finally:
-                if conn:
-                    self.pg_pool.putconn(conn)
-
-        return visitseq_uuid
-
     def record_mixed_metadata(
         self,
         visits: pd.DataFrame,
@@ -892,7 +855,13 @@ class VisitSequenceArchiveMetadata:
         visitseq_uuid : `UUID`
             The UUID of the new visit sequence.
         """
-        visitseq_uuid = self.record_visitseq_metadata(
+        extra_data = {
+            "last_early_day_obs": dayobs_to_date(last_early_day_obs),
+            "first_late_day_obs": dayobs_to_date(first_late_day_obs),
+            "early_parent_uuid": early_parent_uuid,
+            "late_parent_uuid": late_parent_uuid,
+        }
+        return self._insert_visitseq(
             visits,
             label,
             telescope=telescope,
@@ -901,48 +870,9 @@ class VisitSequenceArchiveMetadata:
             first_day_obs=first_day_obs,
             last_day_obs=last_day_obs,
             creation_time=creation_time,
+            extra_data=extra_data,
         )
 
-        update_query = sql.SQL("""UPDATE {}.mixedvisitseq
-                   SET last_early_day_obs={},
-                       first_late_day_obs={},
-                       early_parent_uuid={},
-                       late_parent_uuid={}\
-                   WHERE visitseq_uuid={} RETURNING *
-                """).format(
-            sql.Identifier(self.metadata_db_schema),
-            sql.Placeholder("last_early_day_obs"),
-            sql.Placeholder("first_late_day_obs"),
-            sql.Placeholder("early_parent_uuid"),
-            sql.Placeholder("late_parent_uuid"),
-            sql.Placeholder("visitseq_uuid"),
-        )
-
-        data = {
-            "last_early_day_obs": dayobs_to_date(last_early_day_obs),
-            "first_late_day_obs": dayobs_to_date(first_late_day_obs),
-            "early_parent_uuid": early_parent_uuid,
-            "late_parent_uuid": late_parent_uuid,
-            "visitseq_uuid": visitseq_uuid,
-        }
-
-        conn = None
-        try:
-            conn = self.pg_pool.getconn()
-            cursor = conn.cursor()
-            cursor.execute(update_query, data)
-            result = cursor.fetchall()
-
-            # Be extra cautious, and check that everything looks
-            # reasonable before commiting the update.
-            assert len(result) == 1
-            cursor.execute("COMMIT;")
-        finally:
-            if conn:
-                self.pg_pool.putconn(conn)
-
-        return visitseq_uuid
-
     def is_tagged(self, visitseq_uuid: UUID, tag: str) -> bool:
         """Return whether a visit sequence is tagged with a given tag.
 
-- 
2.43.0


From 1157ed9ffbf322e2794bd159a2451a0b6ffb7fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:53 +0000
Subject: [PATCH 007/150] fix: add all tags of one tag call atomically

---
 rubin_sim/sim_archive/vseqmetadata.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index f75353b..9ace6b1 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -906,14 +906,18 @@ class VisitSequenceArchiveMetadata:
         *tags : `str`
             One or more tags to add to the visit sequence.
         """
-        query = sql.SQL("INSERT INTO {}.tags (visitseq_uuid, tag) VALUES ({}, {})").format(
-            sql.Identifier(self.metadata_db_schema), sql.Placeholder("visitseq_uuid"), sql.Placeholder("tag")
+        # Insert all new tags in one statement, so that either all of them
+        # or none are added.
+        new_tags = [t for t in dict.fromkeys(tags) if not self.is_tagged(visitseq_uuid, t)]
+        if len(new_tags) == 0:
+            return
+        query = sql.SQL(
+            "INSERT INTO {}.tags (visitseq_uuid, tag) SELECT {}, new_tag FROM UNNEST({}::TEXT[]) AS new_tag"
+        ).format(
+            sql.Identifier(self.metadata_db_schema), sql.Placeholder("visitseq_uuid"), sql.Placeholder("tags")
         )
-        data: Dict[str, Any] = {"visitseq_uuid": visitseq_uuid}
-        for tag in tags:
-            if not self.is_tagged(visitseq_uuid, tag):
-                data["tag"] = tag
-                self.query(query, data, commit=True, return_result=False)
+        data = {"visitseq_uuid": visitseq_uuid, "tags": new_tags}
+        self.query(query, data, commit=True, return_result=False)
 
     def untag(self, visitseq_uuid: UUID, tag: str) -> None:
         """Untag a visit sequence with a given tag.
-- 
2.43.0


From b2490ca30da75998742fd1a072914609d0c1fb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:00 +0000
Subject: [PATCH 008/150] fix: do not overwrite an archived file when its
 re-registration is refused

---
 rubin_sim/sim_archive/vseqarchive.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rubin_sim/sim_archive/vseqarchive.py b/rubin_sim/sim_archive/vseqarchive.py
index 5b4c33e..16c77c6 100644
--- a/rubin_sim/sim_archive/vseqarchive.py
+++ b/rubin_sim/sim_archive/vseqarchive.py
@@ -211,6 +211,16 @@ def add_file(
             location = add_file(vsarch, uuid, new_origin, "visits", archive_base, update)
         return location
 
+    if file_type != "visits" and not update:
+        # Check for duplicates before writing anything, so that a refused
+        # request does not overwrite the file already in the archive.
+        try:
+            vsarch.get_file_url(uuid, file_type)
+        except ValueError:
+            pass
+        else:
+            raise ValueError(f"A file of type {file_type} is already registered for {uuid}")
+
     location, file_sha256 = _write_file_to_archive(origin, visitseq_base_rp)
     if file_type == "visits":
         vsarch.set_visitseq_url(uuid, location.geturl())
-- 
2.43.0


From 4684263260787a863c99c6bba963601bcb10d0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:00 +0000
Subject: [PATCH 009/150] fix: do not let archived files of different types
 overwrite each other

---
 rubin_sim/sim_archive/vseqarchive.py  |  6 ++++++
 rubin_sim/sim_archive/vseqmetadata.py | 28 +++++++++++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/rubin_sim/sim_archive/vseqarchive.py b/rubin_sim/sim_archive/vseqarchive.py
index 16c77c6..f5a6aef 100644
--- a/rubin_sim/sim_archive/vseqarchive.py
+++ b/rubin_sim/sim_archive/vseqarchive.py
@@ -221,6 +221,12 @@ def add_file(
         else:
             raise ValueError(f"A file of type {file_type} is already registered for {uuid}")
 
+    # Do not overwrite a file of another type.
+    destination_url = visitseq_base_rp.join(Path(origin).name).geturl()
+    other_types = set(vsarch.get_file_types_at_url(uuid, destination_url)) - {file_type}
+    if len(other_types) > 0:
+        raise ValueError(f"{destination_url} already holds the {other_types} of {uuid}")
+
     location, file_sha256 = _write_file_to_archive(origin, visitseq_base_rp)
     if file_type == "visits":
         vsarch.set_visitseq_url(uuid, location.geturl())
diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index 9ace6b1..c52af50 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -1156,6 +1156,34 @@ class VisitSequenceArchiveMetadata:
         url = result[0][0]
         return url
 
+    def get_file_types_at_url(self, visitseq_uuid: UUID, file_url: str) -> list[str]:
+        """Return the types of the files of a visit sequence
+        registered at a given URL.
+
+        Parameters
+        ----------
+        visitseq_uuid : `UUID`
+            The UUID of the visit sequence.
+        file_url : `str`
+            The URL to look for.
+
+        Returns
+        -------
+        file_types : `list` [`str`]
+            The file types registered at the URL, including ``"visits"``
+            if it is the location of the visits themselves.
+        """
+        query = sql.SQL(
+            "SELECT file_type FROM {schema}.files WHERE visitseq_uuid={uuid} AND file_url={url}"
+            + " UNION SELECT 'visits' FROM {schema}.visitseq WHERE visitseq_uuid={uuid} AND visitseq_url={url}"
+        ).format(
+            schema=sql.Identifier(self.metadata_db_schema),
+            uuid=sql.Placeholder("visitseq_uuid"),
+            url=sql.Placeholder("file_url"),
+        )
+        data = {"visitseq_uuid": visitseq_uuid, "file_url": file_url}
+        return [row[0] for row in self.query(query, data)]
+
     def get_file_sha256(self, visitseq_uuid: UUID, file_type: str) -> bytes:
         """Retrieve the SHA‑256 digest of a registered file.
 
-- 
2.43.0


From 46d72884a370260ac5d692954091caf2e290143a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:41 +0000
Subject: [PATCH 010/150] fix: look up simulations in file based prenight
 indexes

---
 rubin_sim/sim_archive/prenightindex.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/prenightindex.py b/rubin_sim/sim_archive/prenightindex.py
index e81f6dc..a236230 100644
--- a/rubin_sim/sim_archive/prenightindex.py
+++ b/rubin_sim/sim_archive/prenightindex.py
@@ -291,7 +291,11 @@ def _get_sim_uuid_from_metadata_index(
 
     for telescope in TELESCOPES:
         prenight_index = get_prenight_index(day_obs, telescope, **kwargs)
-        matching_sims = (prenight_index.sim_creation_day_obs == sim_date) & (
+        if len(prenight_index) == 0:
+            continue
+        # The creation day obs is a date if the index comes from the database,
+        # but an ISO formatted string if it comes from a file.
+        matching_sims = (prenight_index.sim_creation_day_obs.map(dayobs_to_date) == sim_date) & (
             prenight_index.daily_id == int(daily_id)
         )
         if np.any(matching_sims):
-- 
2.43.0


From 1430cc46438dd2dc8e72da6b172176e802805a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:41 +0000
Subject: [PATCH 011/150] fix: accept ISO strings as day_obs in
 get_sim_metadata with an index

---
 rubin_sim/sim_archive/prenightindex.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rubin_sim/sim_archive/prenightindex.py b/rubin_sim/sim_archive/prenightindex.py
index a236230..18a3092 100644
--- a/rubin_sim/sim_archive/prenightindex.py
+++ b/rubin_sim/sim_archive/prenightindex.py
@@ -385,6 +385,10 @@ def _get_sim_metadata_from_metadata_index(
         simulations are found with the same UUID (indicating a problem in the
         metadata database).
     """
+    # Accept ISO style string for day_obs
+    if isinstance(day_obs, str):
+        day_obs = day_obs.replace("-", "")
+
     day_obs = int(
         f"{day_obs.year:04d}{day_obs.month:02d}{day_obs.day:02d}" if isinstance(day_obs, date) else day_obs
     )
-- 
2.43.0


From 5da1ca22dce2a0a469fa4c8d1b0dea5b69e2b257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:23 +0000
Subject: [PATCH 012/150] fix: export simulated nights under the key that
 imports read

---
 rubin_sim/sim_archive/vseqmetadata.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index c52af50..0a2de9d 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -1675,11 +1675,11 @@ class VisitSequenceArchiveMetadata:
             metadata["creation_time"] = metadata_seq["creation_time"].isoformat()
 
         if metadata_seq.first_day_obs is not None or metadata_seq.last_day_obs is not None:
-            metadata["simulation_dates"] = {}
+            metadata["simulated_dates"] = {}
             if metadata_seq.first_day_obs is not None:
-                metadata["simulation_dates"]["first"] = metadata_seq.first_day_obs
+                metadata["simulated_dates"]["first"] = metadata_seq.first_day_obs
             if metadata_seq.last_day_obs is not None:
-                metadata["simulation_dates"]["last"] = metadata_seq.last_day_obs
+                metadata["simulated_dates"]["last"] = metadata_seq.last_day_obs
 
         if metadata_seq.files is not None:
             metadata["files"] = {}
-- 
2.43.0


From 173383fd65d07ec05769d0bd6b5644b31ccd6fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:23 +0000
Subject: [PATCH 013/150] fix: keep the creation time when importing a
 simulation from yaml

---
 rubin_sim/sim_archive/vseqmetadata.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index 0a2de9d..02d4769 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -1571,6 +1571,13 @@ class VisitSequenceArchiveMetadata:
             except ValueError:
                 pass
 
+        # An explicit creation time has priority over one from the label.
+        if sim_archive_metadata.get("creation_time") is not None:
+            creation_time = sim_archive_metadata["creation_time"]
+            if isinstance(creation_time, str):
+                creation_time = datetime.fromisoformat(creation_time)
+            record_sim_kwargs["creation_time"] = Time(creation_time)
+
         for key in ["scheduler_version", "telescope"]:
             if key in sim_archive_metadata:
                 record_sim_kwargs[key] = sim_archive_metadata[key]
-- 
2.43.0


From c3c2095cc8ffae0a5b4e26675d5805cc91dd0407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:43 +0000
Subject: [PATCH 014/150] fix: compare sim execution date before daily index
 for latest prenight

---
 rubin_sim/sim_archive/prototype.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rubin_sim/sim_archive/prototype.py b/rubin_sim/sim_archive/prototype.py
index e1b19d0..c08d225 100644
--- a/rubin_sim/sim_archive/prototype.py
+++ b/rubin_sim/sim_archive/prototype.py
@@ -802,9 +802,7 @@ def find_latest_prenight_sim_for_nights(
         if not set(tags).issubset(sim["tags"]):
             continue
         if best_sim is not None:
-            if sim["exec_date"] < best_sim["exec_date"]:
-                continue
-            if sim["date_index"] < best_sim["date_index"]:
+            if (sim["exec_date"], sim["date_index"]) < (best_sim["exec_date"], best_sim["date_index"]):
                 continue
         best_sim = sim
 
-- 
2.43.0


From 8ec2b48c5ce099300c6df97b2f4fade908a24292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:43 +0000
Subject: [PATCH 015/150] fix: allow simulations without tags when finding the
 latest prenight

---
 rubin_sim/sim_archive/prototype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/prototype.py b/rubin_sim/sim_archive/prototype.py
index c08d225..38de668 100644
--- a/rubin_sim/sim_archive/prototype.py
+++ b/rubin_sim/sim_archive/prototype.py
@@ -799,7 +799,7 @@ def find_latest_prenight_sim_for_nights(
             continue
         if "telescope" in sim and sim["telescope"].lower() != telescope.lower():
             continue
-        if not set(tags).issubset(sim["tags"]):
+        if not set(tags).issubset(sim.get("tags", [])):
             continue
         if best_sim is not None:
             if (sim["exec_date"], sim["date_index"]) < (best_sim["exec_date"], best_sim["date_index"]):
-- 
2.43.0


From 8addfba35d391c8c9ee2a35ff00ee1d741e29116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:43 +0000
Subject: [PATCH 016/150] fix: compile metadata of simulations without tags or
 runner arguments

---
 rubin_sim/sim_archive/prototype.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/rubin_sim/sim_archive/prototype.py b/rubin_sim/sim_archive/prototype.py
index 38de668..6ccbf3b 100644
--- a/rubin_sim/sim_archive/prototype.py
+++ b/rubin_sim/sim_archive/prototype.py
@@ -477,8 +477,9 @@ def compile_sim_metadata(
 
     sim_df = pd.DataFrame(sim_rows).set_index("sim_uri")
     file_df = pd.DataFrame(file_rows).set_index("sim_uri")
-    sim_runner_kwargs_df = pd.DataFrame(sim_runner_kwargs).set_index("sim_uri")
-    tags_df = pd.DataFrame(tags).set_index("sim_uri")
+    sim_runner_kwargs_df = pd.DataFrame(sim_runner_kwargs, columns=None if sim_runner_kwargs else ["sim_uri"])
+    sim_runner_kwargs_df = sim_runner_kwargs_df.set_index("sim_uri")
+    tags_df = pd.DataFrame(tags, columns=["sim_uri", "tag"]).set_index("sim_uri")
 
     with TemporaryDirectory() as local_data_dir:
         local_hdf_fname = Path(local_data_dir).joinpath("scheduler.pickle.xz")
@@ -529,8 +530,10 @@ def read_sim_metadata_from_hdf(compilation_resource: str | ResourcePath) -> dict
         LOGGER.debug(f"{compilation_resource} copied to {compilation_fname}.")
         sim_df = pd.read_hdf(compilation_fname, "simulations")
         file_df = pd.read_hdf(compilation_fname, "files")
-        sim_runner_kwargs_df = pd.read_hdf(compilation_fname, "kwargs")
-        tags_df = pd.read_hdf(compilation_fname, "tags")
+        # Tables without any rows are not present in the file.
+        with pd.HDFStore(compilation_fname, mode="r") as store:
+            sim_runner_kwargs_df = store["kwargs"] if "kwargs" in store else None
+            tags_df = store["tags"] if "tags" in store else None
 
     def make_file_dict(g: pd.Series | pd.DataFrame) -> dict:
         if isinstance(g, pd.Series):
@@ -557,9 +560,11 @@ def read_sim_metadata_from_hdf(compilation_resource: str | ResourcePath) -> dict
 
         return sim_kwargs
 
-    sim_df["sim_runner_kwargs"] = sim_runner_kwargs_df.groupby("sim_uri").apply(make_kwargs_dict)
+    if sim_runner_kwargs_df is not None:
+        sim_df["sim_runner_kwargs"] = sim_runner_kwargs_df.groupby("sim_uri").apply(make_kwargs_dict)
 
-    sim_df["tags"] = tags_df.groupby("sim_uri").agg({"tag": list})
+    if tags_df is not None:
+        sim_df["tags"] = tags_df.groupby("sim_uri").agg({"tag": list})
 
     sim_metadata = sim_df.to_dict(orient="index")
 
-- 
2.43.0


From da18585bdf715fcac19ba0c78f3a8b7158738c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:17 +0000
Subject: [PATCH 017/150] fix: do not add the pandas index to visits with
 stackers

---
 rubin_sim/sim_archive/vseqarchive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/vseqarchive.py b/rubin_sim/sim_archive/vseqarchive.py
index f5a6aef..8fdf0d2 100644
--- a/rubin_sim/sim_archive/vseqarchive.py
+++ b/rubin_sim/sim_archive/vseqarchive.py
@@ -271,7 +271,7 @@ def get_visits(
         visits.query(query, inplace=True)
 
     if len(stackers) > 0:
-        visit_records = visits.to_records()
+        visit_records = visits.to_records(index=False)
         for stacker in stackers:
             visit_records = stacker.run(visit_records)
         visits = pd.DataFrame(visit_records)
-- 
2.43.0


From 0d8b80c719ab15e9c44e96369a994c424a31d3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:17 +0000
Subject: [PATCH 018/150] fix: do not modify the arguments of
 fetch_sim_for_nights

---
 rubin_sim/sim_archive/prototype.py   | 6 +++---
 rubin_sim/sim_archive/sim_archive.py | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/sim_archive/prototype.py b/rubin_sim/sim_archive/prototype.py
index 6ccbf3b..647fa57 100644
--- a/rubin_sim/sim_archive/prototype.py
+++ b/rubin_sim/sim_archive/prototype.py
@@ -888,9 +888,9 @@ def fetch_sim_for_nights(
         get_sim_data_kwargs = {}
     assert isinstance(get_sim_data_kwargs, dict)
 
-    # Limit visits returned to the nights we requested
-    if "stackers" not in get_sim_data_kwargs:
-        get_sim_data_kwargs["stackers"] = []
+    # Limit visits returned to the nights we requested.
+    # Work on copies, so the caller's arguments are not modified.
+    get_sim_data_kwargs = {**get_sim_data_kwargs, "stackers": list(get_sim_data_kwargs.get("stackers") or [])}
     dayobsiso_requested = maf.DayObsISOStacker in [s.__class__ for s in get_sim_data_kwargs["stackers"]]
     if not dayobsiso_requested:
         # We want it to filter out dates that were not requested,
diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index 9b8fc21..0d47958 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -471,7 +471,8 @@ def fetch_sim_for_nights(
             stackers = get_sim_data_kwargs["stackers"]
         else:
             stackers = []
-    assert isinstance(stackers, list)
+    # Work on a copy, so the caller's sequence is not modified.
+    stackers = list(stackers)
 
     dayobsiso_requested = maf.DayObsISOStacker in [s.__class__ for s in stackers]
     if not dayobsiso_requested:
@@ -483,7 +484,7 @@ def fetch_sim_for_nights(
         if get_sim_data_kwargs is None:
             get_sim_data_kwargs = {}
         assert isinstance(get_sim_data_kwargs, dict)
-        get_sim_data_kwargs["stackers"] = stackers
+        get_sim_data_kwargs = {**get_sim_data_kwargs, "stackers": stackers}
         visits_recarray = get_sim_data(opsim_rp, **get_sim_data_kwargs)
         visits = pd.DataFrame(visits_recarray)
     else:
-- 
2.43.0


From 29faa81ee949e696f396be62b927efbefdaba642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:17 +0000
Subject: [PATCH 019/150] fix: report no statistics for nights without visits

---
 rubin_sim/sim_archive/sim_archive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index 0d47958..4aadb32 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -687,7 +687,8 @@ def fetch_sim_stats_for_night(
         visits = get_visits(sim["visitseq_url"])
         columns = [c for c in visits.columns if is_numeric_dtype(visits[c])]
         stats_df = compute_nightly_stats(visits, columns=tuple(columns))
-        dayobs_stats_df = stats_df.set_index("day_obs").loc[date.fromisoformat(day_obs), :]
+        on_night = stats_df["day_obs"] == date.fromisoformat(day_obs)
+        dayobs_stats_df = stats_df.loc[on_night, :].drop(columns="day_obs")
         stats_maybe = dayobs_stats_df.set_index("value_name").to_dict(orient="index")
         stats = cast(dict[str, Any], stats_maybe) if isinstance(stats_maybe, dict) else {}
 
-- 
2.43.0


From 04591b255230b475f80262784ad724b1f166c409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:25 +0000
Subject: [PATCH 020/150] fix: update_display keeps the caller's display
 dictionary as it was

---
 rubin_sim/maf/db/results_db.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/db/results_db.py b/rubin_sim/maf/db/results_db.py
index f991889..3f5608e 100644
--- a/rubin_sim/maf/db/results_db.py
+++ b/rubin_sim/maf/db/results_db.py
@@ -493,8 +493,11 @@ class ResultsDb:
                 for d in displayinfo:
                     self.session.delete(d)
             else:
+                self.close()
                 return
-        # Then go ahead and add new display_dict.
+        # Then go ahead and add new display_dict
+        # (filling in a copy, the dictionary belongs to the caller).
+        display_dict = dict(display_dict)
         for k in display_dict:
             if display_dict[k] is None:
                 display_dict[k] = "NULL"
-- 
2.43.0


From 382373b2e887e4ee735993373f1d14b36886cb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:25 +0000
Subject: [PATCH 021/150] fix: the oldest results databases can be updated to
 the current schema

---
 rubin_sim/maf/db/results_db.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rubin_sim/maf/db/results_db.py b/rubin_sim/maf/db/results_db.py
index 3f5608e..f97b210 100644
--- a/rubin_sim/maf/db/results_db.py
+++ b/rubin_sim/maf/db/results_db.py
@@ -271,6 +271,9 @@ class ResultsDb:
                 "metricDataFile": "metric_datafile",
             }
             for old, new in updates.items():
+                if old not in cols:
+                    # Already renamed, above or by an earlier version.
+                    continue
                 query = text(f"alter table metrics rename column {old} to {new}")
                 self.session.execute(query)
             self.session.commit()
-- 
2.43.0


From 0c686263567c887386d3d566c5c42b7286abdf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:33 +0000
Subject: [PATCH 022/150] fix: replace a tracked run in one transaction

---
 rubin_sim/maf/db/tracking_db.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rubin_sim/maf/db/tracking_db.py b/rubin_sim/maf/db/tracking_db.py
index e8a13ee..e119ae9 100644
--- a/rubin_sim/maf/db/tracking_db.py
+++ b/rubin_sim/maf/db/tracking_db.py
@@ -177,7 +177,6 @@ class TrackingDb:
             )
             for run in prevrun:
                 self.session.delete(run)
-            self.session.commit()
             runinfo = RunRow(
                 maf_run_id=runIds[0],
                 run_group=run_group,
-- 
2.43.0


From f9e6a523c715e2ee7d1bb9770e372d2bba7dc62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:33 +0000
Subject: [PATCH 023/150] fix: find the run directory wherever the tracking
 database is

---
 rubin_sim/maf/db/tracking_db.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rubin_sim/maf/db/tracking_db.py b/rubin_sim/maf/db/tracking_db.py
index e119ae9..6d81560 100644
--- a/rubin_sim/maf/db/tracking_db.py
+++ b/rubin_sim/maf/db/tracking_db.py
@@ -281,7 +281,6 @@ def add_run_to_database(
     """
     trackingDb = TrackingDb(database=tracking_db_file)
 
-    maf_dir = os.path.relpath(maf_dir, start=os.path.dirname(trackingDb.tracking_db_dir))
     if not os.path.isdir(maf_dir):
         raise ValueError("There is no directory containing MAF outputs at %s." % (maf_dir))
 
-- 
2.43.0


From 9e227f5fa48995e98d21f94f642f0c45e8d9dd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:33 +0000
Subject: [PATCH 024/150] fix: track an analysis whose results database is
 empty

---
 rubin_sim/maf/db/tracking_db.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rubin_sim/maf/db/tracking_db.py b/rubin_sim/maf/db/tracking_db.py
index 6d81560..ca734e3 100644
--- a/rubin_sim/maf/db/tracking_db.py
+++ b/rubin_sim/maf/db/tracking_db.py
@@ -291,6 +291,8 @@ def add_run_to_database(
             run_name = resdb.get_run_name()
             if len(run_name) > 1:
                 run_name = 0
+            elif len(run_name) == 0:
+                run_name = None
             else:
                 run_name = run_name[0]
         if maf_version is None or maf_date is None:
-- 
2.43.0


From b4e3db0fb1aa4e451a51a212263135256338e9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:33 +0000
Subject: [PATCH 025/150] fix: skip runs without a results database when
 gathering summaries

---
 rubin_sim/maf/run_comparison/gather_summaries.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rubin_sim/maf/run_comparison/gather_summaries.py b/rubin_sim/maf/run_comparison/gather_summaries.py
index 8a38310..3e43fac 100755
--- a/rubin_sim/maf/run_comparison/gather_summaries.py
+++ b/rubin_sim/maf/run_comparison/gather_summaries.py
@@ -33,6 +33,7 @@ def combine_result_dbs(run_dirs, dbfilename="resultsDb_sqlite.db"):
         fname = os.path.join(rdir, dbfilename)
         if not os.path.isfile(fname):
             logger.warning(f"No resultsDb database in {rdir}")
+            continue
 
         con = sqlite3.connect(fname)
         temp_df = pd.read_sql(sql_q, con)
-- 
2.43.0


From 3e244ebf5ad497917b57332316bcb8ab5bc75ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:33 +0000
Subject: [PATCH 026/150] fix: skip runs without summary statistics when
 gathering summaries

---
 rubin_sim/maf/run_comparison/gather_summaries.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rubin_sim/maf/run_comparison/gather_summaries.py b/rubin_sim/maf/run_comparison/gather_summaries.py
index 3e43fac..60b9244 100755
--- a/rubin_sim/maf/run_comparison/gather_summaries.py
+++ b/rubin_sim/maf/run_comparison/gather_summaries.py
@@ -38,6 +38,9 @@ def combine_result_dbs(run_dirs, dbfilename="resultsDb_sqlite.db"):
         con = sqlite3.connect(fname)
         temp_df = pd.read_sql(sql_q, con)
         con.close()
+        if len(temp_df) == 0:
+            logger.warning(f"No summary statistics in {fname}")
+            continue
 
         # Make column names
         def make_summary_name(x):
-- 
2.43.0


From b9ab219a6f6e0a1c1bbc3ebbd93faa21d75899e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:54 +0000
Subject: [PATCH 027/150] fix: the time interval slicer returns the visits of
 each interval

---
 rubin_sim/maf/slicers/time_interval_slicers.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/slicers/time_interval_slicers.py b/rubin_sim/maf/slicers/time_interval_slicers.py
index e5cca06..fe2658d 100644
--- a/rubin_sim/maf/slicers/time_interval_slicers.py
+++ b/rubin_sim/maf/slicers/time_interval_slicers.py
@@ -64,16 +64,21 @@ class TimeIntervalSlicer(BaseSlicer):
     def setup_slicer(self, sim_data, maps=None):
         visit_mjds = sim_data[self.mjd_column_name]
         start_mjd = np.floor(np.min(visit_mjds)).astype(int)
-        end_mjd = np.ceil(np.max(visit_mjds)).astype(int)
+        # The day after the last visit, even if that is exactly at midnight.
+        end_mjd = np.floor(np.max(visit_mjds)).astype(int) + 1
         interval_days = self.interval_seconds / (24 * 60 * 60.0)
 
         mjd_bin_edges = np.arange(start_mjd, end_mjd + interval_days, interval_days)
 
+        # Forget the visits of any previous setup.
+        self.sim_idxs = defaultdict(list)
+        # np.digitize counts the edges up to the visit, and so numbers the
+        # intervals from one.
         self.sim_idxs.update(
             pd.DataFrame(
                 {
                     "visit_idx": np.arange(len(visit_mjds)),
-                    "sid": np.digitize(visit_mjds, mjd_bin_edges),
+                    "sid": np.digitize(visit_mjds, mjd_bin_edges) - 1,
                 }
             )
             .groupby("sid")
@@ -95,8 +100,11 @@ class TimeIntervalSlicer(BaseSlicer):
 
             try:
                 _ = idxs[0]
-            except (TypeError, IndexError):
+            except TypeError:
                 idxs = [idxs]
+            except IndexError:
+                # There are no visits in this interval.
+                pass
 
             slice_points = {
                 "sid": islice,
-- 
2.43.0


From 260c33c9b9480df5f8c9473e8a60485791df261d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:54 +0000
Subject: [PATCH 028/150] fix: the visit interval slicer describes the visit it
 returns

---
 rubin_sim/maf/slicers/time_interval_slicers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/slicers/time_interval_slicers.py b/rubin_sim/maf/slicers/time_interval_slicers.py
index fe2658d..1d413d4 100644
--- a/rubin_sim/maf/slicers/time_interval_slicers.py
+++ b/rubin_sim/maf/slicers/time_interval_slicers.py
@@ -266,10 +266,11 @@ class VisitIntervalSlicer(TimeIntervalSlicer):
 
         self.sim_idxs = np.argsort(sim_data[self.mjd_column_name])
         self.slice_points["sid"] = np.arange(self.nslice)
-        self.slice_points["mjd"] = sim_data[self.mjd_column_name]
-        self.slice_points["duration"] = sim_data[self.duration_column_name]
+        # The slices are in order of time, whatever the order of the visits.
+        self.slice_points["mjd"] = np.asarray(sim_data[self.mjd_column_name])[self.sim_idxs]
+        self.slice_points["duration"] = np.asarray(sim_data[self.duration_column_name])[self.sim_idxs]
         for column_name in self.extra_column_names:
-            self.slice_points[column_name] = sim_data[column_name]
+            self.slice_points[column_name] = np.asarray(sim_data[column_name])[self.sim_idxs]
         self._run_maps(maps)
 
         @wraps(self._slice_sim_data)
@@ -281,7 +282,7 @@ class VisitIntervalSlicer(TimeIntervalSlicer):
                 "duration": self.slice_points["duration"][islice],
             }
             for column_name in self.extra_column_names:
-                slice_points[column_name] = self.slice_points[column_name]
+                slice_points[column_name] = self.slice_points[column_name][islice]
 
             return {"idxs": idxs, "slice_point": slice_points}
 
-- 
2.43.0


From dfda88d72da4d450578d0456a077bd7fd3f99251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:34 +0000
Subject: [PATCH 029/150] fix: group only metric bundles which are compatible
 with every bundle of the group

The lists of maps were compared through list.sort(), which returns None, so
bundles with different maps were run together.  A bundle found incompatible
with a later member of a group was added to the group nevertheless, and could
be added to several groups.  A stacker of one bundle could also replace a
column which another bundle of the same group reads.
---
 .../maf/metric_bundles/metric_bundle_group.py     | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle_group.py b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
index bdb893b..41fcb95 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle_group.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
@@ -165,7 +165,7 @@ class MetricBundleGroup:
             return False
         if metric_bundle1.slicer != metric_bundle2.slicer:
             return False
-        if metric_bundle1.maps_list.sort() != metric_bundle2.maps_list.sort():
+        if sorted(metric_bundle1.maps_list) != sorted(metric_bundle2.maps_list):
             return False
         for stacker in metric_bundle1.stacker_list:
             for stacker2 in metric_bundle2.stacker_list:
@@ -173,6 +173,15 @@ class MetricBundleGroup:
                 # and if they are identical, that's ok.
                 if (stacker.__class__.__name__ == stacker2.__class__.__name__) & (stacker != stacker2):
                     return False
+        # A stacker which is only used by one of the bundles must not
+        # change a column which the other bundle reads or sets.
+        for bundle, other in ((metric_bundle1, metric_bundle2), (metric_bundle2, metric_bundle1)):
+            cols_used = set(other.slicer.columns_needed) | set(other.metric.col_name_arr)
+            for stacker in other.stacker_list:
+                cols_used |= set(stacker.cols_req) | set(stacker.cols_added)
+            for stacker in bundle.stacker_list:
+                if stacker not in other.stacker_list and not cols_used.isdisjoint(stacker.cols_added):
+                    return False
         # But if we got this far, everything matches.
         return True
 
@@ -200,10 +209,12 @@ class MetricBundleGroup:
                             # stop and go on to the
                             # next subset list.
                             break
-                    # Otherwise, we reached the end of the subset
+                if compatible:
+                    # We reached the end of the subset
                     # and they were all compatible.
                     found_compatible = True
                     compatible_list.append(k)
+                    break
             if not found_compatible:
                 # Didn't find a pre-existing compatible set; make a new one.
                 compatible_lists.append(
-- 
2.43.0


From e1dd279cec0e672c394a416dabea48099b297058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:34 +0000
Subject: [PATCH 030/150] fix: do not pass the stacked columns of one set of
 metric bundles on to the next

The columns added or replaced by the stackers of one compatible set stayed in
the visits on which the following sets were run.
---
 rubin_sim/maf/metric_bundles/metric_bundle_group.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle_group.py b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
index 41fcb95..64a361f 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle_group.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
@@ -447,16 +447,19 @@ class MetricBundleGroup:
                 uniq_maps.append(m)
 
         # Run stackers.
+        # The stacked columns are only meant for this set of bundles, so
+        # keep the data which is shared with the other sets as it is.
+        sim_data = self.sim_data
         for stacker in uniq_stackers:
             # Note that stackers will clobber previously existing columns
-            self.sim_data = stacker.run(self.sim_data, override=True)
+            sim_data = stacker.run(sim_data, override=True)
 
         # Pull out one of the slicers to use as our 'slicer'.
         # This will be forced back into all of the metricBundles
         # at the end (so that they track the same info_label such as the
         # slice_points, in case the same actual object wasn't used).
         slicer = list(b_dict.values())[0].slicer
-        slicer.setup_slicer(self.sim_data, maps=uniq_maps)
+        slicer.setup_slicer(sim_data, maps=uniq_maps)
         # Copy the slicer (after setup) back into the individual metricBundles.
         if slicer.slicer_name != "HealpixSlicer" or slicer.slicer_name != "UniSlicer":
             for b in b_dict.values():
@@ -487,7 +490,7 @@ class MetricBundleGroup:
 
         for slice_i in slicer_iter:
             i = slice_i["slice_point"]["sid"]
-            slicedata = self.sim_data[slice_i["idxs"]]
+            slicedata = sim_data[slice_i["idxs"]]
             if len(slicedata) == 0:
                 # No data at this slice_point. Mask data values.
                 for b in b_dict.values():
-- 
2.43.0


From 0a1d1c9ece5ec06763b53775463ab9d89637d0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:10 +0000
Subject: [PATCH 031/150] fix: keep the reduced results of every bundle which
 shares a metric name

Two bundles of the same complex metric, such as with two slicers, gave reduced
bundles of the same name, and only the last one stayed in the group.
---
 rubin_sim/maf/metric_bundles/metric_bundle_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle_group.py b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
index 64a361f..ec14a9b 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle_group.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
@@ -598,7 +598,7 @@ class MetricBundleGroup:
                     # Add the new metricBundle to our metricBundleGroup
                     # dictionary.
                     name = newmetricbundle.metric.name
-                    if name in self.bundle_dict:
+                    if name in self.bundle_dict or name in reduce_bundle_dict:
                         name = newmetricbundle.file_root
                     reduce_bundle_dict[name] = newmetricbundle
                     if self.save_early:
-- 
2.43.0


From fc0fe13e28c35f485f066629138c40299a86d7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:32 +0000
Subject: [PATCH 032/150] fix: restore the reduced results when reading a group
 of metric bundles

read_all looked for files named with the name of the reduce function, not the
name under which reduced results are written, then used attributes of the
bundle which do not exist, and lost a file_root set by the caller.
---
 .../maf/metric_bundles/metric_bundle_group.py | 57 +++++++++----------
 1 file changed, 26 insertions(+), 31 deletions(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle_group.py b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
index ec14a9b..39cc1e0 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle_group.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
@@ -1,5 +1,6 @@
 __all__ = ("make_bundles_dict_from_list", "MetricBundleGroup")
 
+import copy
 import os
 import sys
 import warnings
@@ -793,39 +794,36 @@ class MetricBundleGroup:
             # Look to see if this is a complex metric,
             # with associated 'reduce' functions, and read those in too.
             if len(bundle.metric.reduce_funcs) > 0:
-                orig_metric_name = bundle.metric.name
-                for reduce_func in bundle.metric.reduce_funcs.values():
-                    reduce_name = orig_metric_name + "_" + reduce_func.__name__.replace("reduce", "")
-                    # Borrow the fileRoot in b (we'll reset it appropriately)
-                    bundle.metric.name = reduce_name
-                    bundle._build_file_root()
-                    filename = os.path.join(self.out_dir, bundle.file_root + ".npz")
+                for reduce_name in bundle.metric.reduce_funcs:
+                    # Name the reduced metric as MetricBundle.reduce_metric.
+                    newmetric = copy.deepcopy(bundle.metric)
+                    newmetric.name = bundle.metric.name + "_" + reduce_name.replace("reduce_", "")
+                    newmetric.metric_dtype = "float"
+                    # This won't necessarily recreate the plot_dict and
+                    # display_dict exactly as they would have been made
+                    # if you calculated the reduce metric from scratch.
+                    newmetric_bundle = MetricBundle(
+                        metric=newmetric,
+                        slicer=bundle.slicer,
+                        constraint=bundle.constraint,
+                        stacker_list=bundle.stacker_list,
+                        run_name=bundle.run_name,
+                        info_label=bundle.info_label,
+                        plot_dict=bundle.plot_dict,
+                        display_dict=bundle.display_dict,
+                        summary_metrics=bundle.summary_metrics,
+                        maps_list=bundle.maps_list,
+                        plot_funcs=bundle.plot_funcs,
+                    )
+                    filename = os.path.join(self.out_dir, newmetric_bundle.file_root + ".npz")
                     tmp_bundle = create_empty_metric_bundle()
                     try:
                         tmp_bundle.read(filename)
-                        # This won't necessarily recreate the plot_dict and
-                        # display_dict exactly as they would have been made
-                        # if you calculated the reduce metric from scratch.
-                        newmetric_bundle = MetricBundle(
-                            metric=bundle.metric,
-                            slicer=bundle.slicer,
-                            constraint=bundle.constraint,
-                            stacker_list=bundle.stacker_list,
-                            run_name=bundle.run_name,
-                            info_label=bundle.info_label,
-                            plot_dict=bundle.plotDict,
-                            display_dict=bundle.displayDict,
-                            summary_metrics=bundle.summary_metrics,
-                            maps_list=bundle.maps_list,
-                            file_root=bundle.file_root,
-                            plot_funcs=bundle.plot_funcs,
-                        )
-                        newmetric_bundle.metric.name = reduce_name
                         newmetric_bundle.metric_values = ma.copy(tmp_bundle.metric_values)
                         newmetric_bundle.summary_values = tmp_bundle.summary_values
                         # Add the new metricBundle to metricBundleGroup dict.
                         name = newmetric_bundle.metric.name
-                        if name in self.bundle_dict:
+                        if name in self.bundle_dict or name in reduce_bundle_dict:
                             name = newmetric_bundle.file_root
                         reduce_bundle_dict[name] = newmetric_bundle
                         if self.verbose:
@@ -835,11 +833,8 @@ class MetricBundleGroup:
                             'Warning: file %s not found, bundle not restored ("reduce" metric).' % filename
                         )
 
-                    # Remove summaryMetrics from top level metricbundle.
-                    bundle.summary_metrics = []
-                    # Update parent MetricBundle name.
-                    bundle.metric.name = orig_metric_name
-                    bundle._build_file_root()
+                # Remove summaryMetrics from top level metricbundle.
+                bundle.summary_metrics = []
 
         # Add the reduce bundles into the bundleDict.
         self.bundle_dict.update(reduce_bundle_dict)
-- 
2.43.0


From 6af5a2ac8bac1ab55e2ebccf6acae0ab3b25f5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:32 +0000
Subject: [PATCH 033/150] fix: accept a single map as the maps_list of a metric
 bundle

A single map was stored in another attribute, so that making the bundle failed.
---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index 22a0dc0..b2b00e2 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -155,7 +155,7 @@ class MetricBundle:
         # Set the 'maps' to apply to the slicer, if applicable.
         if maps_list is not None:
             if isinstance(maps_list, maps.BaseMap):
-                self.known_cols = [
+                self.maps_list = [
                     maps_list,
                 ]
             else:
-- 
2.43.0


From b13b012594d18b8be642813a5a9a37de68e6fd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:32 +0000
Subject: [PATCH 034/150] fix: accept a single plotter as the plot_funcs of a
 metric bundle

---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index b2b00e2..7eefe44 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -368,7 +368,7 @@ class MetricBundle:
             The plotter or plotters to use to generate visuals for this metric.
         """
         if plot_funcs is not None:
-            if plot_funcs is isinstance(plot_funcs, plots.BasePlotter):
+            if isinstance(plot_funcs, plots.BasePlotter):
                 self.plot_funcs = [plot_funcs]
             else:
                 self.plot_funcs = []
-- 
2.43.0


From 13c38170ee5448b6778c8e07b36defc21a2f2a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:32 +0000
Subject: [PATCH 035/150] fix: record the name of the file which was written in
 the results database

The suffix of the file name was left out of the record.
---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index 7eefe44..3122f28 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -535,7 +535,7 @@ class MetricBundle:
             summary_values=self.summary_values,
         )
         if results_db is not None:
-            self.write_db(results_db=results_db)
+            self.write_db(results_db=results_db, outfile_suffix=outfile_suffix)
 
     def output_json(self):
         """Set up and call the baseSlicer outputJSON method,
-- 
2.43.0


From afd393605702b35b0135dc94c5290d09c87ac08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:32 +0000
Subject: [PATCH 036/150] fix: build the info label of a metric file which has
 none

---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index 3122f28..88146a6 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -601,7 +601,7 @@ class MetricBundle:
             if "summary_values" in header:
                 self.summary_values = header["summary_values"]
         if self.info_label is None:
-            self._build_metadata()
+            self._build_metadata(None)
         path, head = os.path.split(filename)
         self.file_root = head.replace(".npz", "")
         self.set_plot_funcs(None)
-- 
2.43.0


From 0805ec2c3206306cca27b0d518199701573f0e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:32 +0000
Subject: [PATCH 037/150] fix: run the stackers of a metric bundle after those
 which provide their columns

Default stackers were put after the stackers which need their columns, in an
arbitrary order, so the latter failed or used columns not set yet.  Columns
which only a given stacker provides were requested from the database, and a
default stacker could replace the column which a given stacker provides.
---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 65 +++++++++++--------
 1 file changed, 37 insertions(+), 28 deletions(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index 88146a6..2158b00 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -289,39 +289,48 @@ class MetricBundle:
         # For the stackers already set up, find their required columns.
         for s in self.stacker_list:
             known_cols += s.cols_req
-        known_cols = set(known_cols)
+        # Columns set by the stackers already set up
+        # (without reading a previous value of the column).
+        supplied_cols = set()
+        for s in self.stacker_list:
+            supplied_cols |= set(s.cols_added) - set(s.cols_req)
         # Track sources of all of these columns.
         self.db_cols = set()
-        new_stackers = set()
-        for col in known_cols:
-            if self.col_info.get_data_source(col) == self.col_info.default_data_source:
+        checked_cols = set()
+        while len(known_cols) > 0:
+            col = known_cols.pop(0)
+            if col in checked_cols:
+                continue
+            checked_cols.add(col)
+            if col in supplied_cols:
+                continue
+            source = self.col_info.get_data_source(col)
+            if source == self.col_info.default_data_source:
                 self.db_cols.add(col)
-            else:
+            elif source not in [s.__class__ for s in self.stacker_list]:
                 # New default stackers could come from metric/slicer
-                # or stackers.
-                new_stackers.add(self.col_info.get_data_source(col))
-        # Remove already-specified stackers from default list.
-        for s in self.stacker_list:
-            if s.__class__ in new_stackers:
-                new_stackers.remove(s.__class__)
-        # Loop and check if stackers are introducing new columns or stackers.
-        while len(new_stackers) > 0:
-            # Check for the sources of the columns in any of the new stackers.
-            new_cols = []
-            for s in new_stackers:
-                new_stacker = s()
-                new_cols += new_stacker.cols_req
+                # or stackers, and may introduce new columns or stackers.
+                new_stacker = source()
                 self.stacker_list.append(new_stacker)
-            new_cols = set(new_cols)
-            new_stackers = set()
-            for col in new_cols:
-                if self.col_info.get_data_source(col) == self.col_info.default_data_source:
-                    self.db_cols.add(col)
-                else:
-                    new_stackers.add(self.col_info.get_data_source(col))
-            for s in self.stacker_list:
-                if s.__class__ in new_stackers:
-                    new_stackers.remove(s.__class__)
+                supplied_cols |= set(new_stacker.cols_added)
+                known_cols += new_stacker.cols_req
+        # Run the stackers in an order in which their columns are available.
+        available = set(self.db_cols)
+        waiting = self.stacker_list
+        self.stacker_list = []
+        while len(waiting) > 0:
+            ready = 0
+            for i, s in enumerate(waiting):
+                to_come = set()
+                for j, other in enumerate(waiting):
+                    if i != j:
+                        to_come |= set(other.cols_added)
+                if to_come.isdisjoint(set(s.cols_req) - available):
+                    ready = i
+                    break
+            s = waiting.pop(ready)
+            self.stacker_list.append(s)
+            available |= set(s.cols_added)
         # A Bit of cleanup.
         # Remove 'metricdata' from dbcols if it ended here by default.
         if "metricdata" in self.db_cols:
-- 
2.43.0


From 40a47be2b0b516fc786e4c9ed76ea886cf1bf681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:45 +0000
Subject: [PATCH 038/150] fix: skip the metric bundles of a constraint when
 given no visits to run

The bundles were marked as run without having values, then reducing or
summarising the missing values failed.
---
 rubin_sim/maf/metric_bundles/metric_bundle_group.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle_group.py b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
index 39cc1e0..2cf06a5 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle_group.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
@@ -317,6 +317,12 @@ class MetricBundleGroup:
         # Can pass simData directly (if had other method for getting data)
         if sim_data is not None:
             self.sim_data = sim_data
+            if len(self.sim_data) == 0:
+                warnings.warn(
+                    "No data to run. Skipping metrics %s"
+                    % ([b.metric.name for b in self.current_bundle_dict.values()])
+                )
+                return
 
         else:
             self.sim_data = None
-- 
2.43.0


From c63d61b3e9a801764495a96a1bcd9f7e24733368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:32 +0000
Subject: [PATCH 039/150] fix: the visit interval slicer numbers its slices in
 order

The slice was numbered with the index of the visit in a list, so that values
calculated for it were stored at another slice point unless the visits were
given in order of time, and the visit itself was selected as a scalar.
---
 rubin_sim/maf/slicers/time_interval_slicers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/slicers/time_interval_slicers.py b/rubin_sim/maf/slicers/time_interval_slicers.py
index 1d413d4..de7e102 100644
--- a/rubin_sim/maf/slicers/time_interval_slicers.py
+++ b/rubin_sim/maf/slicers/time_interval_slicers.py
@@ -275,9 +275,9 @@ class VisitIntervalSlicer(TimeIntervalSlicer):
 
         @wraps(self._slice_sim_data)
         def _slice_sim_data(islice):  # pylint: disable=invalid-name
-            idxs = self.sim_idxs[islice]
+            idxs = [self.sim_idxs[islice]]
             slice_points = {
-                "sid": [idxs],
+                "sid": islice,
                 "mjd": self.slice_points["mjd"][islice],
                 "duration": self.slice_points["duration"][islice],
             }
-- 
2.43.0


From bbd07b0466e23b940472a1e084b8618527f6df0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:32 +0000
Subject: [PATCH 040/150] fix: compare n-dimensional slicers by their columns
 and all of their bins

Only as many bins as dimensions were compared, columns were not, and slicers
which had not been set up could not be compared at all, so that two bundles
with n-dimensional slicers could not be run together.
---
 rubin_sim/maf/slicers/nd_slicer.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/slicers/nd_slicer.py b/rubin_sim/maf/slicers/nd_slicer.py
index 91c9db1..9628d76 100644
--- a/rubin_sim/maf/slicers/nd_slicer.py
+++ b/rubin_sim/maf/slicers/nd_slicer.py
@@ -139,9 +139,18 @@ class NDSlicer(BaseSlicer):
         if isinstance(other_slicer, NDSlicer):
             if other_slicer.n_d != self.n_d:
                 return False
-            for i in range(self.n_d):
-                if not np.array_equal(other_slicer.slice_points["bins"][i], self.slice_points["bins"][i]):
-                    return False
-            return True
+            if list(other_slicer.slice_col_list) != list(self.slice_col_list):
+                return False
+            # If both slicers were set up or restored, compare their bins.
+            if "bins" in self.slice_points and "bins" in other_slicer.slice_points:
+                return np.array_equal(other_slicer.slice_points["bins"], self.slice_points["bins"])
+            # Before the setup, compare how the bins will be set.
+            bins_lists = []
+            for slicer in (self, other_slicer):
+                if isinstance(slicer.bins_list, float) or isinstance(slicer.bins_list, int):
+                    bins_lists.append([slicer.bins_list for c in slicer.slice_col_list])
+                else:
+                    bins_lists.append(slicer.bins_list)
+            return all(np.array_equal(b1, b2) for b1, b2 in zip(*bins_lists))
         else:
             return False
-- 
2.43.0


From 93095ad94c2f871de10cf53b7caf152b25c62753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:32 +0000
Subject: [PATCH 041/150] fix: compare movie slicers before they are set up

Comparing them failed, and movie slicers of different columns or kinds were
the same if they had the same bins.
---
 rubin_sim/maf/slicers/movie_slicer.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/slicers/movie_slicer.py b/rubin_sim/maf/slicers/movie_slicer.py
index abd9c25..50b9f31 100644
--- a/rubin_sim/maf/slicers/movie_slicer.py
+++ b/rubin_sim/maf/slicers/movie_slicer.py
@@ -214,10 +214,19 @@ class MovieSlicer(BaseSlicer):
         """
         Evaluate if slicers are equivalent.
         """
-        if isinstance(other_slicer, MovieSlicer):
-            return np.array_equal(other_slicer.slice_points["bins"], self.slice_points["bins"])
-        else:
+        if not isinstance(other_slicer, MovieSlicer):
             return False
+        for key in ["slice_col_name", "cumulative"]:
+            if getattr(other_slicer, key) != getattr(self, key):
+                return False
+        # If both slicers were set up or restored, compare their bins.
+        if "bins" in self.slice_points and "bins" in other_slicer.slice_points:
+            return np.array_equal(other_slicer.slice_points["bins"], self.slice_points["bins"])
+        # Before the setup, compare how the bins will be set.
+        for key in ["bins", "bin_min", "bin_max", "bin_size"]:
+            if not np.array_equal(getattr(other_slicer, key), getattr(self, key)):
+                return False
+        return True
 
     def make_movie(
         self,
-- 
2.43.0


From 2b2c40a4186fab6dc59808b594f047630ff5e221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:32 +0000
Subject: [PATCH 042/150] fix: save the settings of movie slicers with the
 metric values

---
 rubin_sim/maf/slicers/movie_slicer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rubin_sim/maf/slicers/movie_slicer.py b/rubin_sim/maf/slicers/movie_slicer.py
index 50b9f31..740e65c 100644
--- a/rubin_sim/maf/slicers/movie_slicer.py
+++ b/rubin_sim/maf/slicers/movie_slicer.py
@@ -78,6 +78,7 @@ class MovieSlicer(BaseSlicer):
         self.bin_max = bin_max
         self.bin_size = bin_size
         self.cumulative = cumulative
+        self.slice_col_units = slice_col_units
         if slice_col_units is None:
             co = ColInfo()
             self.slice_col_units = co.get_units(self.slice_col_name)
@@ -85,6 +86,12 @@ class MovieSlicer(BaseSlicer):
             "slice_col_name": self.slice_col_name,
             "slice_col_units": slice_col_units,
             "badval": badval,
+            "bins": self.bins,
+            "bin_min": self.bin_min,
+            "bin_max": self.bin_max,
+            "bin_size": self.bin_size,
+            "cumulative": self.cumulative,
+            "force_no_ffmpeg": True,
         }
 
     def setup_slicer(self, sim_data, maps=None):
-- 
2.43.0


From a3893a4924073251251f857fdb553061cceb3afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:32 +0000
Subject: [PATCH 043/150] fix: compare time interval slicers before they are
 set up

Comparing them failed, and interval slicers of different columns or kinds were
the same if they had the same slice points.
---
 rubin_sim/maf/slicers/time_interval_slicers.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/slicers/time_interval_slicers.py b/rubin_sim/maf/slicers/time_interval_slicers.py
index de7e102..601638e 100644
--- a/rubin_sim/maf/slicers/time_interval_slicers.py
+++ b/rubin_sim/maf/slicers/time_interval_slicers.py
@@ -118,12 +118,20 @@ class TimeIntervalSlicer(BaseSlicer):
 
     def __eq__(self, other_slicer):
         """Evaluate if slicers are equivalent."""
-        if not isinstance(other_slicer, self.__class__):
+        if other_slicer.__class__ is not self.__class__:
             return False
 
-        for key in ["sid", "mjd", "duration"]:
-            if not np.array_equal(other_slicer.slice_points[key], self.slice_points[key]):
-                return False
+        if other_slicer.interval_seconds != self.interval_seconds:
+            return False
+
+        if list(other_slicer.columns_needed) != list(self.columns_needed):
+            return False
+
+        # If both slicers were set up or restored, compare their intervals.
+        if "mjd" in self.slice_points and "mjd" in other_slicer.slice_points:
+            for key in ["sid", "mjd", "duration"]:
+                if not np.array_equal(other_slicer.slice_points[key], self.slice_points[key]):
+                    return False
 
         return True
 
-- 
2.43.0


From 01f5d74416c09b13624965086579f5e56709fe34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:32 +0000
Subject: [PATCH 044/150] fix: request the extra columns of a visit interval
 slicer

The columns were neither requested from the database nor compared.
---
 rubin_sim/maf/slicers/time_interval_slicers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/slicers/time_interval_slicers.py b/rubin_sim/maf/slicers/time_interval_slicers.py
index 601638e..e09c0eb 100644
--- a/rubin_sim/maf/slicers/time_interval_slicers.py
+++ b/rubin_sim/maf/slicers/time_interval_slicers.py
@@ -265,7 +265,7 @@ class VisitIntervalSlicer(TimeIntervalSlicer):
         self.mjd_column_name = mjd_column_name
         self.duration_column_name = duration_column_name
         self.extra_column_names = extra_column_names
-        self.columns_needed = [mjd_column_name, duration_column_name]
+        self.columns_needed = [mjd_column_name, duration_column_name] + list(extra_column_names)
         self.sim_idxs = None  # pylint: disable=invalid-name
 
     def setup_slicer(self, sim_data, maps=None):
-- 
2.43.0


From 5c569b14ff57dd65780cebdf3c3c0167182371d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:32 +0000
Subject: [PATCH 045/150] fix: save the settings of time interval slicers with
 the metric values

They were restored with the default interval and columns.
---
 rubin_sim/maf/slicers/time_interval_slicers.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/rubin_sim/maf/slicers/time_interval_slicers.py b/rubin_sim/maf/slicers/time_interval_slicers.py
index e09c0eb..3c18965 100644
--- a/rubin_sim/maf/slicers/time_interval_slicers.py
+++ b/rubin_sim/maf/slicers/time_interval_slicers.py
@@ -60,6 +60,11 @@ class TimeIntervalSlicer(BaseSlicer):
         self.mjd_column_name = mjd_column_name
         self.columns_needed = [mjd_column_name]
         self.sim_idxs = defaultdict(list)  # pylint: disable=invalid-name
+        self.slicer_init = {
+            "interval_seconds": interval_seconds,
+            "mjd_column_name": mjd_column_name,
+            "badval": badval,
+        }
 
     def setup_slicer(self, sim_data, maps=None):
         visit_mjds = sim_data[self.mjd_column_name]
@@ -177,6 +182,12 @@ class BlockIntervalSlicer(TimeIntervalSlicer):
             note_column_name,
         ]
         self.sim_idxs = defaultdict(list)  # pylint: disable=invalid-name
+        self.slicer_init = {
+            "mjd_column_name": mjd_column_name,
+            "duration_column_name": duration_column_name,
+            "note_column_name": note_column_name,
+            "badval": badval,
+        }
 
     def setup_slicer(self, sim_data, maps=None):
         visits = pd.DataFrame(
@@ -267,6 +278,12 @@ class VisitIntervalSlicer(TimeIntervalSlicer):
         self.extra_column_names = extra_column_names
         self.columns_needed = [mjd_column_name, duration_column_name] + list(extra_column_names)
         self.sim_idxs = None  # pylint: disable=invalid-name
+        self.slicer_init = {
+            "mjd_column_name": mjd_column_name,
+            "duration_column_name": duration_column_name,
+            "extra_column_names": extra_column_names,
+            "badval": badval,
+        }
 
     def setup_slicer(self, sim_data, maps=None):
         self.nslice = len(sim_data[self.mjd_column_name])
-- 
2.43.0


From d8a8d4b53c098c3a243b34cbf9182a70c0ad037a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:32 +0000
Subject: [PATCH 046/150] fix: compare healpix slicers by everything which
 selects their visits

Slicers for data in degrees and in radians, with different camera footprints,
or for SDSS corners were the same, so that their metric bundles were run with
only one of them.
---
 rubin_sim/maf/slicers/healpix_slicer.py        | 5 +++++
 rubin_sim/maf/slicers/healpix_subset_slicer.py | 3 +++
 rubin_sim/maf/slicers/user_points_slicer.py    | 3 +++
 3 files changed, 11 insertions(+)

diff --git a/rubin_sim/maf/slicers/healpix_slicer.py b/rubin_sim/maf/slicers/healpix_slicer.py
index 12a6323..a4d1cc6 100644
--- a/rubin_sim/maf/slicers/healpix_slicer.py
+++ b/rubin_sim/maf/slicers/healpix_slicer.py
@@ -166,6 +166,11 @@ class HealpixSlicer(BaseSpatialSlicer):
         # If the two slicers are both healpix slicers, check nsides value.
         result = False
         if isinstance(other_slicer, HealpixSlicer):
+            if other_slicer.__class__ is not self.__class__:
+                return False
+            for key in ["latLonDeg", "camera_radius", "camera_footprint_file"]:
+                if getattr(other_slicer, key) != getattr(self, key):
+                    return False
             if other_slicer.nside == self.nside:
                 if other_slicer.lon_col == self.lon_col and other_slicer.lat_col == self.lat_col:
                     if other_slicer.radius == self.radius:
diff --git a/rubin_sim/maf/slicers/healpix_subset_slicer.py b/rubin_sim/maf/slicers/healpix_subset_slicer.py
index 8d7a74a..7e27eaf 100644
--- a/rubin_sim/maf/slicers/healpix_subset_slicer.py
+++ b/rubin_sim/maf/slicers/healpix_subset_slicer.py
@@ -195,6 +195,9 @@ class HealpixSubsetSlicer(HealpixSlicer):
         # If the two slicers are both healpix slicers, check nsides value.
         result = False
         if isinstance(other_slicer, HealpixSubsetSlicer):
+            for key in ["latLonDeg", "camera_radius", "camera_footprint_file", "use_cache"]:
+                if getattr(other_slicer, key) != getattr(self, key):
+                    return False
             if other_slicer.nside == self.nside:
                 if np.array_equal(other_slicer.hpid, self.hpid):
                     if other_slicer.lon_col == self.lon_col and other_slicer.lat_col == self.lat_col:
diff --git a/rubin_sim/maf/slicers/user_points_slicer.py b/rubin_sim/maf/slicers/user_points_slicer.py
index 8f02ff0..807521b 100644
--- a/rubin_sim/maf/slicers/user_points_slicer.py
+++ b/rubin_sim/maf/slicers/user_points_slicer.py
@@ -128,6 +128,9 @@ class UserPointsSlicer(BaseSpatialSlicer):
             else:
                 return False
         if isinstance(other_slicer, UserPointsSlicer):
+            for key in ["latLonDeg", "camera_radius", "camera_footprint_file"]:
+                if getattr(other_slicer, key) != getattr(self, key):
+                    return False
             if other_slicer.nslice == self.nslice:
                 if np.array_equal(
                     other_slicer.slice_points["ra"], self.slice_points["ra"]
-- 
2.43.0


From 22f0c98d7c1280cb2cd5ce6b320e83a531ee1cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:32 +0000
Subject: [PATCH 047/150] fix: save all of the settings of healpix and user
 point slicers

The camera, cache, column and bad value settings were lost when reading the
metric values, and the points were saved in radians but read as degrees.
---
 rubin_sim/maf/slicers/healpix_sdss_slicer.py |  7 +++++++
 rubin_sim/maf/slicers/healpix_slicer.py      |  7 +++++++
 rubin_sim/maf/slicers/user_points_slicer.py  | 20 +++++++++++++-------
 3 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/rubin_sim/maf/slicers/healpix_sdss_slicer.py b/rubin_sim/maf/slicers/healpix_sdss_slicer.py
index 8ac2235..e89411a 100644
--- a/rubin_sim/maf/slicers/healpix_sdss_slicer.py
+++ b/rubin_sim/maf/slicers/healpix_sdss_slicer.py
@@ -36,6 +36,13 @@ class HealpixSDSSSlicer(HealpixSlicer):
             use_cache=use_cache,
             nside=nside,
         )
+        self.slicer_init = {
+            "nside": nside,
+            "lon_col": lon_col,
+            "lat_col": lat_col,
+            "use_cache": use_cache,
+            "radius": radius,
+        }
         self.cornerLables = ["RA1", "Dec1", "RA2", "Dec2", "RA3", "Dec3", "RA4", "Dec4"]
         self.plot_funcs = [
             HealpixSDSSSkyMap,
diff --git a/rubin_sim/maf/slicers/healpix_slicer.py b/rubin_sim/maf/slicers/healpix_slicer.py
index a4d1cc6..89396d7 100644
--- a/rubin_sim/maf/slicers/healpix_slicer.py
+++ b/rubin_sim/maf/slicers/healpix_slicer.py
@@ -137,7 +137,14 @@ class HealpixSlicer(BaseSpatialSlicer):
             "nside": nside,
             "lon_col": lon_col,
             "lat_col": lat_col,
+            "lat_lon_deg": lat_lon_deg,
+            "use_cache": use_cache,
             "radius": radius,
+            "use_camera": use_camera,
+            "camera_radius": camera_radius,
+            "camera_footprint_file": camera_footprint_file,
+            "rot_sky_pos_col_name": rot_sky_pos_col_name,
+            "badval": badval,
         }
         self.use_cache = use_cache
         if use_cache:
diff --git a/rubin_sim/maf/slicers/user_points_slicer.py b/rubin_sim/maf/slicers/user_points_slicer.py
index 807521b..9e359cb 100644
--- a/rubin_sim/maf/slicers/user_points_slicer.py
+++ b/rubin_sim/maf/slicers/user_points_slicer.py
@@ -94,6 +94,19 @@ class UserPointsSlicer(BaseSpatialSlicer):
             dec = [dec]
         if len(ra) != len(dec):
             raise ValueError("RA and Dec must be the same length")
+        self.slicer_init = {
+            "ra": ra,
+            "dec": dec,
+            "lon_col": lon_col,
+            "lat_col": lat_col,
+            "lat_lon_deg": lat_lon_deg,
+            "radius": radius,
+            "use_camera": use_camera,
+            "camera_radius": camera_radius,
+            "camera_footprint_file": camera_footprint_file,
+            "rot_sky_pos_col_name": rot_sky_pos_col_name,
+            "badval": badval,
+        }
         ra = np.radians(ra)
         dec = np.radians(dec)
         self.slice_points["sid"] = np.arange(np.size(ra))
@@ -108,13 +121,6 @@ class UserPointsSlicer(BaseSpatialSlicer):
 
         self.nslice = np.size(ra)
         self.shape = self.nslice
-        self.slicer_init = {
-            "ra": ra,
-            "dec": dec,
-            "lon_col": lon_col,
-            "lat_col": lat_col,
-            "radius": radius,
-        }
         self.plot_funcs = [BaseSkyMap, BaseHistogram]
 
     def __eq__(self, other_slicer):
-- 
2.43.0


From 04282ddb61659d212539e6372fec17143584bda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:32 +0000
Subject: [PATCH 048/150] fix: warn when bins and other settings of a
 one-dimensional slicer are given

The function to warn with does not exist.
---
 rubin_sim/maf/slicers/one_d_slicer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/slicers/one_d_slicer.py b/rubin_sim/maf/slicers/one_d_slicer.py
index 55d091d..9515534 100644
--- a/rubin_sim/maf/slicers/one_d_slicer.py
+++ b/rubin_sim/maf/slicers/one_d_slicer.py
@@ -66,7 +66,7 @@ class OneDSlicer(BaseSlicer):
         # Forget binmin/max/stepsize if bins was set
         if self.bins is not None:
             if bin_min is not None or bin_max is not None or bin_size is not None:
-                warnings.warning(
+                warnings.warn(
                     f"Both bins and one of the bin_min/bin_max/bin_size was specified. "
                     f"Using bins ({self.bins} values only."
                 )
-- 
2.43.0


From 5954485ad1372c5a4add41d633bfe763f629605b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:46 +0000
Subject: [PATCH 049/150] fix: the stacker of DCR second moments is the source
 of all its columns

---
 rubin_sim/maf/stackers/general_stackers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/general_stackers.py b/rubin_sim/maf/stackers/general_stackers.py
index 7f394bd..dd7d30e 100644
--- a/rubin_sim/maf/stackers/general_stackers.py
+++ b/rubin_sim/maf/stackers/general_stackers.py
@@ -562,7 +562,7 @@ class Dcr2Stacker(BaseStacker):
         zstacker=None,
         pastacker=None,
     ):
-        self.units = ["arcsec", "arcsec"]
+        self.units = ["arcsec^2", "arcsec^2", "arcsec^2", "arcsec^2"]
 
         # Calculated using a flat SED, units are arcseconds^2
         if dcr2_magnitudes is None:
-- 
2.43.0


From d848743fb8c4e895af5d51ae6110125f7cd952b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:46 +0000
Subject: [PATCH 050/150] fix: use the zenith distance stacker given for DCR
 second moments

---
 rubin_sim/maf/stackers/general_stackers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/general_stackers.py b/rubin_sim/maf/stackers/general_stackers.py
index dd7d30e..2256c36 100644
--- a/rubin_sim/maf/stackers/general_stackers.py
+++ b/rubin_sim/maf/stackers/general_stackers.py
@@ -590,7 +590,7 @@ class Dcr2Stacker(BaseStacker):
         if zstacker is None:
             self.zstacker = ZenithDistStacker(alt_col=alt_col, degrees=self.degrees)
         else:
-            self.ztacker = zstacker
+            self.zstacker = zstacker
 
         if pastacker is None:
             self.pastacker = ParallacticAngleStacker(
-- 
2.43.0


From 0e70c338fc1f00256fbba1f1edfa8a9a678fb7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:46 +0000
Subject: [PATCH 051/150] fix: units of zenith distances in radians

---
 rubin_sim/maf/stackers/general_stackers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/general_stackers.py b/rubin_sim/maf/stackers/general_stackers.py
index 2256c36..d222cdd 100644
--- a/rubin_sim/maf/stackers/general_stackers.py
+++ b/rubin_sim/maf/stackers/general_stackers.py
@@ -278,7 +278,7 @@ class ZenithDistStacker(BaseStacker):
         if self.degrees:
             self.units = ["degrees"]
         else:
-            self.unit = ["radians"]
+            self.units = ["radians"]
         self.cols_req = [self.alt_col]
 
     def _run(self, sim_data, cols_present=False):
-- 
2.43.0


From 4adecc5179e49f643faf0ccda4bcf018b3fd9e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:46 +0000
Subject: [PATCH 052/150] fix: saturation limits of visits with a saturated
 sky, and their use of given values

---
 rubin_sim/maf/stackers/general_stackers.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/maf/stackers/general_stackers.py b/rubin_sim/maf/stackers/general_stackers.py
index d222cdd..83fce9e 100644
--- a/rubin_sim/maf/stackers/general_stackers.py
+++ b/rubin_sim/maf/stackers/general_stackers.py
@@ -81,11 +81,15 @@ class SaturationStacker(BaseStacker):
         self.km = km
 
     def _run(self, sim_data, cols_present=False):
-        if self.zeropoints is None:
+        if cols_present:
+            # Column already present in data; assume it is fine.
+            return sim_data
+        if self.zeropoints is None or self.km is None:
             zp_inst, k_atm = load_inst_zeropoints()
-            self.zeropoints = zp_inst
-        if self.km is None:
-            self.km = k_atm
+            if self.zeropoints is None:
+                self.zeropoints = zp_inst
+            if self.km is None:
+                self.km = k_atm
         for filtername in np.unique(sim_data[self.filter_col]):
             in_filt = np.where(sim_data[self.filter_col] == filtername)[0]
             # Calculate the length of the on-sky time per EXPOSURE
@@ -114,7 +118,7 @@ class SaturationStacker(BaseStacker):
                 sim_data[self.airmass_col][in_filt] - 1.0
             )
             # Explicitly make sure if sky has saturated we return NaN
-            sim_data["saturation_mag"][np.where(remaining_counts_peak < 0)] = np.nan
+            sim_data["saturation_mag"][in_filt[remaining_counts_peak < 0]] = np.nan
 
         return sim_data
 
-- 
2.43.0


From 11ff15993595d1ade8a07c5a0f1d0c2d873a2487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:46 +0000
Subject: [PATCH 053/150] fix: the optimal m5 stacker asks for the depths it
 uses

---
 rubin_sim/maf/stackers/m5_optimal_stacker.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rubin_sim/maf/stackers/m5_optimal_stacker.py b/rubin_sim/maf/stackers/m5_optimal_stacker.py
index 58fe538..a3e8ae2 100644
--- a/rubin_sim/maf/stackers/m5_optimal_stacker.py
+++ b/rubin_sim/maf/stackers/m5_optimal_stacker.py
@@ -88,10 +88,15 @@ class M5OptimalStacker(BaseStacker):
             filter_col,
             moon_alt_col,
             sun_alt_col,
+            m5_col,
         ]
         self.cols_req = list(set(self.cols_req))
 
     def _run(self, sim_data, cols_present=False):
+        if cols_present:
+            # Column already present in data; assume it is correct and does not
+            # need recalculating.
+            return sim_data
         # k_atm values from rubin_sim.operations gen_output.py
         k_atm = {"u": 0.50, "g": 0.21, "r": 0.13, "i": 0.10, "z": 0.07, "y": 0.18}
         # Linear fits to sky brightness change,
-- 
2.43.0


From fd14a55c8825b25a80aa00a57c536ef3d32af73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:12 +0000
Subject: [PATCH 054/150] fix: ecliptic longitudes relative to the sun

---
 rubin_sim/maf/stackers/coord_stackers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/coord_stackers.py b/rubin_sim/maf/stackers/coord_stackers.py
index eab5663..8f86411 100644
--- a/rubin_sim/maf/stackers/coord_stackers.py
+++ b/rubin_sim/maf/stackers/coord_stackers.py
@@ -176,7 +176,7 @@ class EclipticStacker(BaseStacker):
             sim_data["eclipLat"] = coord_ecl.lat.rad
 
             if self.subtract_sun_lon:
-                times = Time(sim_data[self.mjd_col])
+                times = Time(sim_data[self.mjd_col], format="mjd")
                 sun = get_sun(times)
                 sun_ecl = sun.geocentricmeanecliptic
                 lon = wrap_ra(coord_ecl.lon.rad - sun_ecl.lon.rad)
-- 
2.43.0


From d00d5da0e5cf5154e08a34aebe1b20959c189739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:12 +0000
Subject: [PATCH 055/150] fix: latitudes and longitudes of the follow-up
 telescopes

---
 rubin_sim/maf/stackers/n_follow_stacker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/n_follow_stacker.py b/rubin_sim/maf/stackers/n_follow_stacker.py
index 692eb9b..b0948e9 100644
--- a/rubin_sim/maf/stackers/n_follow_stacker.py
+++ b/rubin_sim/maf/stackers/n_follow_stacker.py
@@ -171,8 +171,8 @@ class NFollowStacker(BaseStacker):
                 alt, az = ra_dec2_alt_az(
                     ra,
                     dec,
-                    obs_lon,
                     obs_lat,
+                    obs_lon,
                     sim_data[self.mjd_col] + step / 24.0,
                     altonly=True,
                 )
-- 
2.43.0


From 7a0f6dd899075853d67fe8d2b528a63eafeb8b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:36 +0000
Subject: [PATCH 056/150] fix: label the visits of a table of one visit

---
 rubin_sim/maf/stackers/label_stackers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/label_stackers.py b/rubin_sim/maf/stackers/label_stackers.py
index 5b51851..ca77b34 100644
--- a/rubin_sim/maf/stackers/label_stackers.py
+++ b/rubin_sim/maf/stackers/label_stackers.py
@@ -89,7 +89,7 @@ class WFDlabelStacker(BaseStacker):
                 d.add(self.define_ddname(p))
         # Identify Healpixels associated with each visit.
         vec = hp.dir2vec(sim_data[self.ra_col], sim_data[self.dec_col], lonlat=True)
-        vec = vec.swapaxes(0, 1)
+        vec = vec.reshape(3, -1).swapaxes(0, 1)
         radius = np.radians(1.75)  # fov radius
         area_id = np.zeros(len(sim_data), self.cols_added_dtypes[0])
         for i, (v, note) in enumerate(zip(vec, sim_data[self.note_col])):
-- 
2.43.0


From d1e866e17f2a58bccbe0618d5e09b5af167392b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:06 +0000
Subject: [PATCH 057/150] fix: units of columns without units

---
 rubin_sim/maf/stackers/get_col_info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/get_col_info.py b/rubin_sim/maf/stackers/get_col_info.py
index 1fa35e4..fb69866 100644
--- a/rubin_sim/maf/stackers/get_col_info.py
+++ b/rubin_sim/maf/stackers/get_col_info.py
@@ -74,7 +74,7 @@ class ColInfo:
         -------
         units : `str`
         """
-        if col_name is None or col_name not in self.unit_dict:
+        if self.unit_dict.get(col_name) is None:
             return self.default_unit
         else:
             return self.unit_dict[col_name]
-- 
2.43.0


From 4e557804e3d9e59663fb741fafd22dc15470955c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:48 +0000
Subject: [PATCH 058/150] fix: mask whole slice points of metrics with several
 values outside of a subset

---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index 2158b00..5221255 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -237,7 +237,7 @@ class MetricBundle:
             fill_value=self.slicer.badval,
         )
         if hasattr(self.slicer, "mask"):
-            self.metric_values.mask = self.slicer.mask
+            self.metric_values.mask[self.slicer.mask] = True
 
     def _build_metadata(self, info_label, metadata=None):
         """If no info_label is provided, process the constraint
-- 
2.43.0


From 96f1953d84dcc2b45edba6788d048c8e85aa8a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:22 +0000
Subject: [PATCH 059/150] fix: pass the run name of a metric bundle to the JSON
 export

---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index 5221255..4cc92f3 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -558,7 +558,7 @@ class MetricBundle:
         io = self.slicer.output_json(
             self.metric_values,
             metric_name=self.metric.name,
-            simDataName=self.run_name,
+            sim_data_name=self.run_name,
             info_label=self.info_label,
             plot_dict=self.plot_dict,
         )
-- 
2.43.0


From ff0b5818c8e5343419e0088d7f229c3b54dcdbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:22 +0000
Subject: [PATCH 060/150] fix: export integer metric values to JSON

---
 rubin_sim/maf/slicers/base_slicer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/slicers/base_slicer.py b/rubin_sim/maf/slicers/base_slicer.py
index 4141858..3ecba8b 100644
--- a/rubin_sim/maf/slicers/base_slicer.py
+++ b/rubin_sim/maf/slicers/base_slicer.py
@@ -282,7 +282,7 @@ class BaseSlicer(metaclass=SlicerRegistry):
             the data is [ [lon, lat, value], [lon, lat, value] ..].
         """
         # Bail if this is not a good data type for JSON.
-        if not (metric_values.dtype == "float") or (metric_values.dtype == "int"):
+        if not (metric_values.dtype == "float" or metric_values.dtype == "int"):
             warnings.warn("Cannot generate JSON.")
             io = StringIO()
             json.dump(["Cannot generate JSON for this file."], io)
@@ -374,7 +374,8 @@ class BaseSlicer(metaclass=SlicerRegistry):
                 metric.append([metric_values[0]])
         # Write out JSON output.
         io = StringIO()
-        json.dump([header, metric], io)
+        # Translate numpy integers (which JSON will not take) if necessary.
+        json.dump([header, metric], io, default=lambda x: x.item())
         return io
 
     def read_data(self, infilename):
-- 
2.43.0


From c88b8678b8e2ff1e51d91fa51abf3f5efcf8e5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:22 +0000
Subject: [PATCH 061/150] fix: export unmasked values of one-dimensional
 slicers to JSON

---
 rubin_sim/maf/slicers/base_slicer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/slicers/base_slicer.py b/rubin_sim/maf/slicers/base_slicer.py
index 3ecba8b..0f4a4c0 100644
--- a/rubin_sim/maf/slicers/base_slicer.py
+++ b/rubin_sim/maf/slicers/base_slicer.py
@@ -369,7 +369,7 @@ class BaseSlicer(metaclass=SlicerRegistry):
                     bin_left = self.slice_points["bins"][i]
                     value = metric_values[i]
                     metric.append([bin_left, value])
-                metric.append(self.slice_points["bins"][i + 1][0])
+                metric.append([self.slice_points["bins"][i + 1], 0])
             elif self.slicer_name == "UniSlicer":
                 metric.append([metric_values[0]])
         # Write out JSON output.
-- 
2.43.0


From a818cd7cc7ef745a9bbaa2c0967b7720b2c6fd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:22 +0000
Subject: [PATCH 062/150] fix: export a masked single value to JSON as no data

---
 rubin_sim/maf/slicers/base_slicer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/slicers/base_slicer.py b/rubin_sim/maf/slicers/base_slicer.py
index 0f4a4c0..d07500b 100644
--- a/rubin_sim/maf/slicers/base_slicer.py
+++ b/rubin_sim/maf/slicers/base_slicer.py
@@ -356,7 +356,8 @@ class BaseSlicer(metaclass=SlicerRegistry):
                         metric.append([bin_left, 0])
                 metric.append([self.slice_points["bins"][i + 1], 0])
             elif self.slicer_name == "UniSlicer":
-                metric.append([metric_values[0]])
+                if not np.ma.getmaskarray(metric_values)[0]:
+                    metric.append([metric_values[0]])
         # Else:
         else:
             if "ra" in self.slice_points:
-- 
2.43.0


From 64929ae00baf0196ba5518b40b4431f91de6b147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:22 +0000
Subject: [PATCH 063/150] fix: compare one-dimensional slicers whose bins
 depend on the visits

---
 rubin_sim/maf/slicers/one_d_slicer.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/rubin_sim/maf/slicers/one_d_slicer.py b/rubin_sim/maf/slicers/one_d_slicer.py
index 9515534..2ba34c3 100644
--- a/rubin_sim/maf/slicers/one_d_slicer.py
+++ b/rubin_sim/maf/slicers/one_d_slicer.py
@@ -194,13 +194,7 @@ class OneDSlicer(BaseSlicer):
                 else:
                     if (self.bins is not None) and (other_slicer.bins is not None):
                         result = np.array_equal(self.bins, other_slicer.bins)
-                    elif (
-                        (self.bin_size is not None)
-                        and (self.bin_min is not None) & (self.bin_max is not None)
-                        and (other_slicer.bin_size is not None)
-                        and (other_slicer.bin_min is not None)
-                        and (other_slicer.bin_max is not None)
-                    ):
+                    elif (self.bins is None) and (other_slicer.bins is None):
                         if (
                             (self.bin_size == other_slicer.bin_size)
                             and (self.bin_min == other_slicer.bin_min)
-- 
2.43.0


From f88a12912e15fe25ef2114c6ad40944276acb41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:31 +0000
Subject: [PATCH 064/150] fix: return the JSON of a metric in a run of results

---
 rubin_sim/maf/web/maf_run_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/web/maf_run_results.py b/rubin_sim/maf/web/maf_run_results.py
index 5198b84..02fd160 100644
--- a/rubin_sim/maf/web/maf_run_results.py
+++ b/rubin_sim/maf/web/maf_run_results.py
@@ -140,7 +140,7 @@ class MafRunResults:
         io = m_b.output_json()
         if io is None:
             return None
-        return io.get_value()
+        return io.getvalue()
 
     def get_npz(self, metric):
         """
-- 
2.43.0


From fa77525ca44d8513b0152fbf80f97ace86d8abc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:56 +0000
Subject: [PATCH 065/150] fix: set up the block interval slicer with other
 columns than the usual ones

---
 rubin_sim/maf/slicers/time_interval_slicers.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/rubin_sim/maf/slicers/time_interval_slicers.py b/rubin_sim/maf/slicers/time_interval_slicers.py
index 3c18965..fe6196d 100644
--- a/rubin_sim/maf/slicers/time_interval_slicers.py
+++ b/rubin_sim/maf/slicers/time_interval_slicers.py
@@ -190,17 +190,14 @@ class BlockIntervalSlicer(TimeIntervalSlicer):
         }
 
     def setup_slicer(self, sim_data, maps=None):
+        # Only the columns in use: the visits may have others named like these.
         visits = pd.DataFrame(
-            sim_data,
-            index=pd.Index(np.arange(len(sim_data[self.mjd_column_name])), name="visit_idx"),
-        )
-        visits.rename(
-            columns={
-                self.mjd_column_name: "mjd",
-                self.duration_column_name: "duration",
-                self.note_column_name: "scheduler_note",
+            {
+                "mjd": np.asarray(sim_data[self.mjd_column_name]),
+                "duration": np.asarray(sim_data[self.duration_column_name]),
+                "scheduler_note": np.asarray(sim_data[self.note_column_name]),
             },
-            inplace=True,
+            index=pd.Index(np.arange(len(sim_data[self.mjd_column_name])), name="visit_idx"),
         )
         # convert to hours
         visits.sort_values("mjd", inplace=True)
-- 
2.43.0


From 27174f8f6b303b6813bf0d7da7ba37bea044d9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:57 +0000
Subject: [PATCH 066/150] fix: serve the data of a metric, and link to the
 metrics by their ids

---
 rubin_sim/maf/show_maf.py                     | 8 ++++----
 rubin_sim/maf/web/templates/macros.html       | 4 ++--
 rubin_sim/maf/web/templates/metricselect.html | 4 ++--
 rubin_sim/maf/web/templates/multicolor.html   | 4 ++--
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/rubin_sim/maf/show_maf.py b/rubin_sim/maf/show_maf.py
index ca460b4..36f8208 100755
--- a/rubin_sim/maf/show_maf.py
+++ b/rubin_sim/maf/show_maf.py
@@ -72,16 +72,16 @@ class DataHandler(web.RequestHandler):
             datatype = datatype.decode("utf-8")
         else:
             datatype = "npz"
-        run = runlist.getRun(runId)
-        metric = run.metricIdsToMetrics([metricId])
+        run = runlist.get_run(runId)
+        metric = run.metric_ids_to_metrics([metricId])
         if datatype == "npz":
-            npz = run.getNpz(metric)
+            npz = run.get_npz(metric)
             if npz is None:
                 self.write("No npz file available.")
             else:
                 self.redirect(npz)
         elif datatype == "json":
-            jsn = run.getJson(metric)
+            jsn = run.get_json(metric)
             if jsn is None:
                 self.write("No JSON file available.")
             else:
diff --git a/rubin_sim/maf/web/templates/macros.html b/rubin_sim/maf/web/templates/macros.html
index 89e3b6e..a541ca6 100644
--- a/rubin_sim/maf/web/templates/macros.html
+++ b/rubin_sim/maf/web/templates/macros.html
@@ -27,8 +27,8 @@
  <b>
  {% for key in metricInfo %}
     {% if key == 'Data' %}
-       <a href="getData?datatype=npz&runId={{runId}}&metricId={{metric['metric_id']}}">npz</a>
-       <a href="getData?datatype=json&runId={{runId}}&metricId={{metric['metric_id']}}">JSON</a>
+       <a href="getData?datatype=npz&runId={{runId}}&metric_id={{metric['metric_id']}}">npz</a>
+       <a href="getData?datatype=json&runId={{runId}}&metric_id={{metric['metric_id']}}">JSON</a>
     {% else %}
        {{ metricInfo[key]|escape }}
     {% endif %}
diff --git a/rubin_sim/maf/web/templates/metricselect.html b/rubin_sim/maf/web/templates/metricselect.html
index 68460f2..f05ad74 100644
--- a/rubin_sim/maf/web/templates/metricselect.html
+++ b/rubin_sim/maf/web/templates/metricselect.html
@@ -68,8 +68,8 @@
 	  {% for key in metricInfo %}
            <td>
 	   {% if key == 'Data' %}
-	       <a href="getData?datatype=npz&runId={{runId}}&metricId={{metric['metric_id']}}">npz</a>
-	       <a href="getData?datatype=json&runId={{runId}}&metricId={{metric['metric_id']}}">JSON</a>
+	       <a href="getData?datatype=npz&runId={{runId}}&metric_id={{metric['metric_id']}}">npz</a>
+	       <a href="getData?datatype=json&runId={{runId}}&metric_id={{metric['metric_id']}}">JSON</a>
 	   {% else %}
             {{ metricInfo[key]|escape }}
            {% endif %}
diff --git a/rubin_sim/maf/web/templates/multicolor.html b/rubin_sim/maf/web/templates/multicolor.html
index 6c78637..816d9b7 100644
--- a/rubin_sim/maf/web/templates/multicolor.html
+++ b/rubin_sim/maf/web/templates/multicolor.html
@@ -72,10 +72,10 @@
      {% set skymaps = run.order_plots(skymaps) %}
      {% if skymaps|length > 0 %}
       <div id='metricset'>
-       {% set metricLink = 'metricResults?runId=%s&metricId=' %(runId)
+       {% set metricLink = 'metricResults?runId=%s&metric_id=' %(runId)
    %}
        {# add a link to click to the skymap group's details #}
-       {% set metricSelect = run.metrics_to_metric_ids(mskyset)|join('&metricId=') %}
+       {% set metricSelect = run.metrics_to_metric_ids(mskyset)|join('&metric_id=') %}
        {% set metricLink = metricLink ~ metricSelect %}
 	<a href={{metricLink}}>{{mname}}</a> </br>
 	<table class='blank'>
-- 
2.43.0


From ab9f62edc96b22e2a12e63a30de15385f82cff2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:57 +0000
Subject: [PATCH 067/150] fix: show the metrics of the groups which were
 selected

---
 rubin_sim/maf/web/maf_run_results.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/web/maf_run_results.py b/rubin_sim/maf/web/maf_run_results.py
index 02fd160..4cbb996 100644
--- a/rubin_sim/maf/web/maf_run_results.py
+++ b/rubin_sim/maf/web/maf_run_results.py
@@ -110,8 +110,13 @@ class MafRunResults:
         """
         metric_ids = set()
         for group_subgroup in group_list:
-            group = group_subgroup.split("_")[0]
-            subgroup = group_subgroup.split("_")[-1].replace("+", " ")
+            # The web page sends the group and the subgroup (as bytes),
+            # separated by two underscores.
+            if isinstance(group_subgroup, bytes):
+                group_subgroup = group_subgroup.decode("utf-8")
+            sep = "__" if "__" in group_subgroup else "_"
+            group = group_subgroup.split(sep)[0]
+            subgroup = group_subgroup.split(sep)[-1].replace("+", " ")
             m_ids = self.metric_ids_in_subgroup(group, subgroup)
             for m_id in m_ids:
                 metric_ids.add(m_id)
-- 
2.43.0


From 28a3844381d2025253aa45b9c9fa2e0a78926c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:57 +0000
Subject: [PATCH 068/150] fix: show the names and info labels of the metrics

---
 rubin_sim/maf/web/maf_run_results.py        | 2 +-
 rubin_sim/maf/web/templates/macros.html     | 4 ++--
 rubin_sim/maf/web/templates/multicolor.html | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/maf/web/maf_run_results.py b/rubin_sim/maf/web/maf_run_results.py
index 4cbb996..a1eba41 100644
--- a/rubin_sim/maf/web/maf_run_results.py
+++ b/rubin_sim/maf/web/maf_run_results.py
@@ -423,7 +423,7 @@ class MafRunResults:
         metric_info["Metric Name"] = metric["metric_name"]
         if with_slicer_name:
             metric_info["Slicer"] = metric["slicer_name"]
-        metric_info["InfoL abel"] = metric["metric_info_label"]
+        metric_info["Info Label"] = metric["metric_info_label"]
         if with_data_link:
             metric_info["Data"] = []
             metric_info["Data"].append(metric["metric_datafile"])
diff --git a/rubin_sim/maf/web/templates/macros.html b/rubin_sim/maf/web/templates/macros.html
index a541ca6..27564a2 100644
--- a/rubin_sim/maf/web/templates/macros.html
+++ b/rubin_sim/maf/web/templates/macros.html
@@ -199,7 +199,7 @@
       {% for m in slicermetrics %}
   	  {% set mInfo = run.metric_info(m, with_data_link=False, with_slicer_name=False) %}
 	  <th>
-	   {{mInfo['MetricName']}}
+	   {{mInfo['Metric Name']}}
 	  </th>
       {% endfor %}
       </tr>
@@ -208,7 +208,7 @@
       {% for m in slicermetrics %}
 	  {% set mInfo = run.metric_info(m, with_data_link=False, with_slicer_name=False) %}
 	  <th>
-	   {{mInfo['InfoLabel']}}
+	   {{mInfo['Info Label']}}
 	  </th>
       {% endfor %}
       </tr>
diff --git a/rubin_sim/maf/web/templates/multicolor.html b/rubin_sim/maf/web/templates/multicolor.html
index 816d9b7..da1457c 100644
--- a/rubin_sim/maf/web/templates/multicolor.html
+++ b/rubin_sim/maf/web/templates/multicolor.html
@@ -110,8 +110,8 @@
      {% if combohist|length > 0 %}
       <div id='metricset'>
 	{% set metricInfo = run.metric_info(m) %}
-        {{ metricInfo['MetricName']|escape }} ({{metricInfo['Slicer']|escape}})
-	</br> <div id='indent'> {{metricInfo['InfoLabel']|escape}} </div> </br>
+        {{ metricInfo['Metric Name']|escape }} ({{metricInfo['Slicer']|escape}})
+	</br> <div id='indent'> {{metricInfo['Info Label']|escape}} </div> </br>
 	{% for plotfile, thumbfile in zip(combohist['plotFile'], combohist['thumbFile']) %}
         <a href="{{plotfile}}"> <img class="thumbnail" src='{{thumbfile}}'></a>
 	 {% endfor %}
-- 
2.43.0


From c2072dbdac84773d545a88d1d5c319d8d45764e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:57 +0000
Subject: [PATCH 069/150] fix: show the combined and hourglass plots

---
 rubin_sim/maf/web/templates/multicolor.html | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/web/templates/multicolor.html b/rubin_sim/maf/web/templates/multicolor.html
index da1457c..8c578b9 100644
--- a/rubin_sim/maf/web/templates/multicolor.html
+++ b/rubin_sim/maf/web/templates/multicolor.html
@@ -112,7 +112,7 @@
 	{% set metricInfo = run.metric_info(m) %}
         {{ metricInfo['Metric Name']|escape }} ({{metricInfo['Slicer']|escape}})
 	</br> <div id='indent'> {{metricInfo['Info Label']|escape}} </div> </br>
-	{% for plotfile, thumbfile in zip(combohist['plotFile'], combohist['thumbFile']) %}
+	{% for plotfile, thumbfile in zip(combohist['plot_file'], combohist['thumb_file']) %}
         <a href="{{plotfile}}"> <img class="thumbnail" src='{{thumbfile}}'></a>
 	 {% endfor %}
        </div>
@@ -127,7 +127,7 @@
       {% set hourglassplots = run.plots_for_metric(h) %}
       {% set hourglassdict = run.plot_dict(hourglassplots) %}
       {% set hourglass = hourglassdict['Hourglass'] %}
-      {% for plotfile, thumbfile in zip(hourglass['plotFile'], hourglass['thumbFile']) %}
+      {% for plotfile, thumbfile in zip(hourglass['plot_file'], hourglass['thumb_file']) %}
          <a href="{{plotfile}}"> <img class="thumbnail" src='{{thumbfile}}'></a>
       {% endfor %}
    {% endfor %}
-- 
2.43.0


From a949d043660e4f3b87194c0477f82207eedcd843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:17 +0000
Subject: [PATCH 070/150] fix: show sky maps of other types than SkyMap

---
 rubin_sim/maf/web/templates/multicolor.html | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/web/templates/multicolor.html b/rubin_sim/maf/web/templates/multicolor.html
index 8c578b9..8cfdf22 100644
--- a/rubin_sim/maf/web/templates/multicolor.html
+++ b/rubin_sim/maf/web/templates/multicolor.html
@@ -82,13 +82,14 @@
           <tr class='blank'>
        {# put in the sky map plots #}
         {% for skymap in skymaps %}
-            {% set mapkey = 'SkyMap' %}
-            {% if skymap[mapkey]['plot_file']|length == 0 %}
+            {# the plots may be of any of the sky map types #}
+            {% set mapplots = skymap.values()|selectattr('plot_file')|list %}
+            {% if mapplots|length == 0 %}
             <td class='blank'>
             </td>
             {% else %}
-              {% set plotfile = skymap[mapkey]['plot_file'][0] %}
-              {% set thumbfile = skymap[mapkey]['thumb_file'][0] %}
+              {% set plotfile = mapplots[0]['plot_file'][0] %}
+              {% set thumbfile = mapplots[0]['thumb_file'][0] %}
               <td class='blank' align='center'>
                   <a href="{{plotfile}}"> <img class="sm_thumbnail" src='{{thumbfile}}'></a>
               </td>
-- 
2.43.0


From 826ac799419a57a309e015d57412d08e1d0a39df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:17 +0000
Subject: [PATCH 071/150] fix: show the statistics of metrics which share a
 name and an info label

---
 rubin_sim/maf/web/maf_run_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/web/maf_run_results.py b/rubin_sim/maf/web/maf_run_results.py
index a1eba41..ff5e810 100644
--- a/rubin_sim/maf/web/maf_run_results.py
+++ b/rubin_sim/maf/web/maf_run_results.py
@@ -588,7 +588,7 @@ class MafRunResults:
 
         Optionally specify a particular stat_name that you want to match.
         """
-        stats = self.stats[np.where(self.stats["metric_id"] == metric["metric_id"])]
+        stats = self.stats[np.isin(self.stats["metric_id"], metric["metric_id"])]
         if stat_name is not None:
             stats = stats[np.where(stats["summary_metric"] == stat_name)]
         return stats
-- 
2.43.0


From f173d450000e1d010ea4ed066f4315a7acd69d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:18 +0000
Subject: [PATCH 072/150] fix: CountBeyondThreshold works with both thresholds

---
 rubin_sim/maf/metrics/simple_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/simple_metrics.py b/rubin_sim/maf/metrics/simple_metrics.py
index f2b5bde..4fdba37 100644
--- a/rubin_sim/maf/metrics/simple_metrics.py
+++ b/rubin_sim/maf/metrics/simple_metrics.py
@@ -303,7 +303,7 @@ class CountBeyondThreshold(BaseMetric):
             count = len(
                 np.where(
                     (data_slice[self.colname] > self.lower_threshold)
-                    and (data_slice[self.colname] < self.upper_threshold)
+                    & (data_slice[self.colname] < self.upper_threshold)
                 )[0]
             )
         return count
-- 
2.43.0


From 86355184b619be741c206a4f062142ff5a174622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:18 +0000
Subject: [PATCH 073/150] fix: Coaddm5Metric returns badval when no visit is in
 its filter

---
 rubin_sim/maf/metrics/simple_metrics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/simple_metrics.py b/rubin_sim/maf/metrics/simple_metrics.py
index 4fdba37..94bf574 100644
--- a/rubin_sim/maf/metrics/simple_metrics.py
+++ b/rubin_sim/maf/metrics/simple_metrics.py
@@ -104,7 +104,9 @@ class Coaddm5Metric(BaseMetric):
         if len(data_slice) == 0:
             return self.badval
         if self.filter_name is not None:
-            matched = np.where(data_slice[self.filter_col] == self.filter_name)
+            matched = np.where(data_slice[self.filter_col] == self.filter_name)[0]
+            if len(matched) == 0:
+                return self.badval
             coadd = self.coadd(data_slice[matched][self.m5_col])
         else:
             coadd = self.coadd(data_slice[self.m5_col])
-- 
2.43.0


From f2299ca997d62922ff7d4c904c0974d20a2ba0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:18 +0000
Subject: [PATCH 074/150] fix: StringCountMetric leaves the visits unchanged
 when clipping

---
 rubin_sim/maf/metrics/string_count_metric.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metrics/string_count_metric.py b/rubin_sim/maf/metrics/string_count_metric.py
index f8c5b1a..ba13635 100644
--- a/rubin_sim/maf/metrics/string_count_metric.py
+++ b/rubin_sim/maf/metrics/string_count_metric.py
@@ -53,6 +53,7 @@ class StringCountMetric(BaseMetric):
 
     def run(self, data_slice, slice_point=None):
 
+        values = data_slice[self.col]
         # If we need to clip off trailing integer
         if self.clip_end:
             replace_col = []
@@ -66,9 +67,9 @@ class StringCountMetric(BaseMetric):
                         replace_col.append(val)
                 else:
                     replace_col.append(val)
-            data_slice[self.col] = replace_col
+            values = replace_col
 
-        counter = Counter(data_slice[self.col])
+        counter = Counter(values)
         # convert to a numpy array
         lables = list(counter.keys())
         # Numpy can't handle empty string as a dtype
-- 
2.43.0


From efccddeacb2b97d3d08fef6274cc4504ea64142f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:18 +0000
Subject: [PATCH 075/150] fix: CumulativeMetric leaves the visits unchanged

---
 rubin_sim/maf/metrics/cumulative_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/cumulative_metric.py b/rubin_sim/maf/metrics/cumulative_metric.py
index 0d65da2..fb158ad 100644
--- a/rubin_sim/maf/metrics/cumulative_metric.py
+++ b/rubin_sim/maf/metrics/cumulative_metric.py
@@ -31,7 +31,7 @@ class CumulativeMetric(BaseMetric):
         self.plot_dict = {"xlabel": "MJD (days)", "ylabel": "N obs"}
 
     def run(self, data_slice, slice_point=None):
-        data_slice.sort(order=self.time_col)
+        data_slice = np.sort(data_slice, order=self.time_col)
         if self.interp_points is None:
             interp_points = np.arange(
                 data_slice[self.night_col].min(),
-- 
2.43.0


From a3d8ac59663dcb6e15b384ef734c63d3ecf03ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:42 +0000
Subject: [PATCH 076/150] fix: VisitGroupsMetric counts two visits only if they
 are within the time window

---
 rubin_sim/maf/metrics/visit_groups_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/visit_groups_metric.py b/rubin_sim/maf/metrics/visit_groups_metric.py
index 00450f6..b32c07f 100644
--- a/rubin_sim/maf/metrics/visit_groups_metric.py
+++ b/rubin_sim/maf/metrics/visit_groups_metric.py
@@ -217,7 +217,7 @@ class VisitGroupsMetric(BaseMetric):
                     if not timegood[-2] and not timetooclose[-2]:
                         ntooclose += 1
             else:
-                if timegood.size > 0:
+                if timegood.size > 0 and timegood[0]:
                     nvisits += 2
             # Count up all visits for night.
             if nvisits > 0:
-- 
2.43.0


From 666d3870b8c5a592f30ee8d473ca44da2be7cb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:42 +0000
Subject: [PATCH 077/150] fix: VisitGroupsMetric counts each visit of a night
 only once

---
 rubin_sim/maf/metrics/visit_groups_metric.py | 31 ++++----------------
 1 file changed, 6 insertions(+), 25 deletions(-)

diff --git a/rubin_sim/maf/metrics/visit_groups_metric.py b/rubin_sim/maf/metrics/visit_groups_metric.py
index b32c07f..453273f 100644
--- a/rubin_sim/maf/metrics/visit_groups_metric.py
+++ b/rubin_sim/maf/metrics/visit_groups_metric.py
@@ -185,8 +185,6 @@ class VisitGroupsMetric(BaseMetric):
         for n in uniquenights:
             condition = data_slice[self.nights] == n
             times = np.sort(data_slice[self.times][condition])
-            nvisits = 0
-            ntooclose = 0
             # Calculate difference between each visit and time of previous
             # visit (tnext- tnow)
             timediff = np.diff(times)
@@ -196,29 +194,12 @@ class VisitGroupsMetric(BaseMetric):
                 False,
             )
             timetooclose = np.where(timediff < self.delta_tmin, True, False)
-            if len(timegood) > 1:
-                # Count visits for all but last index in timediff
-                for tg1, ttc1, tg2, ttc2 in zip(
-                    timegood[:-1], timetooclose[:-1], timegood[1:], timetooclose[1:]
-                ):
-                    if tg1:
-                        nvisits += 1
-                        if not tg2:
-                            nvisits += 1
-                    if ttc1:
-                        ntooclose += 1
-                        if not tg2 and not ttc2:
-                            ntooclose += 1
-                # Take care of last timediff
-                if timegood[-1]:
-                    nvisits += 2  # close out visit sequence
-                if timetooclose[-1]:
-                    ntooclose += 1
-                    if not timegood[-2] and not timetooclose[-2]:
-                        ntooclose += 1
-            else:
-                if timegood.size > 0 and timegood[0]:
-                    nvisits += 2
+            # Visits with a previous or next visit within the interval are
+            # counted; others only as half visits, if closer than deltaTmin.
+            good = np.append(timegood, False) | np.insert(timegood, 0, False)
+            tooclose = np.append(timetooclose, False) | np.insert(timetooclose, 0, False)
+            nvisits = np.count_nonzero(good)
+            ntooclose = np.count_nonzero(tooclose & ~good)
             # Count up all visits for night.
             if nvisits > 0:
                 nvisits = nvisits + ntooclose / 2.0
-- 
2.43.0


From 1319edbfb4c1f7f2a32391d51a992ef77ba27446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:42 +0000
Subject: [PATCH 078/150] fix: VisitGroupsMetric looks for groups from every
 night of a lunation

---
 rubin_sim/maf/metrics/visit_groups_metric.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/rubin_sim/maf/metrics/visit_groups_metric.py b/rubin_sim/maf/metrics/visit_groups_metric.py
index 453273f..5d19ff9 100644
--- a/rubin_sim/maf/metrics/visit_groups_metric.py
+++ b/rubin_sim/maf/metrics/visit_groups_metric.py
@@ -301,11 +301,7 @@ class VisitGroupsMetric(BaseMetric):
         for lunation in lunations:
             # Find visits within lunation.
             vl, nl = self._in_lunation(metricval["visits"], metricval["nights"], lunation, lunation_length)
-            # If no visits this lunation:
-            if len(vl) == 0:
-                max_sequence = max(max_sequence, cur_sequence)
-                cur_sequence = 0
-            # Else, look to see if groups can be made from the visits.
+            # Look to see if groups can be made from the visits.
             for n in nl:
                 # Find visits which are in groups within the lunation.
                 vw, nw = self._in_window(vl, nl, n, self.window, self.min_n_visits)
@@ -313,10 +309,10 @@ class VisitGroupsMetric(BaseMetric):
                 if len(nw) >= self.min_n_nights:
                     cur_sequence += 1
                     break
-                # Otherwise we're not in a sequence (anymore, or still).
-                else:
-                    max_sequence = max(max_sequence, cur_sequence)
-                    cur_sequence = 0
+            # Otherwise we're not in a sequence (anymore, or still).
+            else:
+                max_sequence = max(max_sequence, cur_sequence)
+                cur_sequence = 0
         # Pick up last sequence if were in a sequence at last lunation.
         max_sequence = max(max_sequence, cur_sequence)
         return max_sequence
-- 
2.43.0


From 804f231b282881d854986ece2cdaab4beaafcb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:42 +0000
Subject: [PATCH 079/150] fix: PairFractionMetric pairs both visits which are
 exactly min_gap or max_gap apart

---
 rubin_sim/maf/metrics/visit_groups_metric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metrics/visit_groups_metric.py b/rubin_sim/maf/metrics/visit_groups_metric.py
index 5d19ff9..96757d1 100644
--- a/rubin_sim/maf/metrics/visit_groups_metric.py
+++ b/rubin_sim/maf/metrics/visit_groups_metric.py
@@ -48,7 +48,7 @@ class PairFractionMetric(BaseMetric):
         # Check which ones have a forard match
         t_plus = times + self.max_gap
         t_minus = times + self.min_gap
-        ind1 = np.searchsorted(times, t_plus)
+        ind1 = np.searchsorted(times, t_plus, side="right")
         ind2 = np.searchsorted(times, t_minus)
         # If ind1 and ind2 are the same, there is no pairable image for
         # that exposure
@@ -58,7 +58,7 @@ class PairFractionMetric(BaseMetric):
         t_plus = times - self.max_gap
         t_minus = times - self.min_gap
         ind1 = np.searchsorted(times, t_plus)
-        ind2 = np.searchsorted(times, t_minus)
+        ind2 = np.searchsorted(times, t_minus, side="right")
 
         diff2 = ind1 - ind2
 
-- 
2.43.0


From d1ebece49d5ac1edcb294ee023d45a6a03c5c483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:42 +0000
Subject: [PATCH 080/150] fix: metrics leave the order of the visits they are
 given unchanged

---
 rubin_sim/maf/metrics/cadence_metrics.py             |  8 ++++----
 rubin_sim/maf/metrics/hourglass_metric.py            |  2 +-
 rubin_sim/maf/metrics/incremental_template_metric.py |  2 +-
 rubin_sim/maf/metrics/sn_cadence_metric.py           |  2 +-
 rubin_sim/maf/metrics/vector_metrics.py              | 12 ++++++------
 5 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/rubin_sim/maf/metrics/cadence_metrics.py b/rubin_sim/maf/metrics/cadence_metrics.py
index 5e29bd9..c521003 100644
--- a/rubin_sim/maf/metrics/cadence_metrics.py
+++ b/rubin_sim/maf/metrics/cadence_metrics.py
@@ -52,7 +52,7 @@ class TemplateExistsMetric(BaseMetric):
 
     def run(self, data_slice, slice_point=None):
         # Check that data is sorted in observationStartMJD order
-        data_slice.sort(order=self.observation_start_mjd_col)
+        data_slice = np.sort(data_slice, order=self.observation_start_mjd_col)
         # Find the minimum seeing up to a given time
         seeing_mins = np.minimum.accumulate(data_slice[self.seeing_col])
         # Find the difference between the seeing and the minimum seeing
@@ -311,7 +311,7 @@ class IntraNightGapsMetric(BaseMetric):
         )
 
     def run(self, data_slice, slice_point=None):
-        data_slice.sort(order=self.mjd_col)
+        data_slice = np.sort(data_slice, order=self.mjd_col)
         dt = np.diff(data_slice[self.mjd_col])
         dn = np.diff(data_slice[self.night_col])
 
@@ -350,7 +350,7 @@ class InterNightGapsMetric(BaseMetric):
         super().__init__(col=[self.mjd_col, self.night_col], units=units, metric_name=metric_name, **kwargs)
 
     def run(self, data_slice, slice_point=None):
-        data_slice.sort(order=self.mjd_col)
+        data_slice = np.sort(data_slice, order=self.mjd_col)
         unights = np.unique(data_slice[self.night_col])
         if np.size(unights) < 2:
             result = self.badval
@@ -394,7 +394,7 @@ class VisitGapMetric(BaseMetric):
         super().__init__(col=[self.mjd_col, self.night_col], units=units, metric_name=metric_name, **kwargs)
 
     def run(self, data_slice, slice_point=None):
-        data_slice.sort(order=self.mjd_col)
+        data_slice = np.sort(data_slice, order=self.mjd_col)
         diff = np.diff(data_slice[self.mjd_col])
         result = self.reduce_func(diff) * 24.0
         return result
diff --git a/rubin_sim/maf/metrics/hourglass_metric.py b/rubin_sim/maf/metrics/hourglass_metric.py
index 4e4d78c..c41cd09 100644
--- a/rubin_sim/maf/metrics/hourglass_metric.py
+++ b/rubin_sim/maf/metrics/hourglass_metric.py
@@ -44,7 +44,7 @@ class HourglassMetric(BaseMetric):
         self.observer = Observer(location=self.location)
 
     def run(self, data_slice, slice_point=None):
-        data_slice.sort(order=self.mjd_col)
+        data_slice = np.sort(data_slice, order=self.mjd_col)
         unights, uindx = np.unique(data_slice[self.night_col], return_index=True)
 
         mjds = np.arange(np.min(data_slice[self.mjd_col]), np.max(data_slice[self.mjd_col]) + 1, 0.5)
diff --git a/rubin_sim/maf/metrics/incremental_template_metric.py b/rubin_sim/maf/metrics/incremental_template_metric.py
index 423290e..2a0e669 100644
--- a/rubin_sim/maf/metrics/incremental_template_metric.py
+++ b/rubin_sim/maf/metrics/incremental_template_metric.py
@@ -129,7 +129,7 @@ class TemplateTime(BaseMetric):
             return self.badval
 
         # Check that the visits are sorted in time
-        data_slice.sort(order=self.mjd_col)
+        data_slice = np.sort(data_slice, order=self.mjd_col)
 
         min_z_possible = np.abs(slice_point["dec"] - self.site_latitude_rad)
         min_airmass_possible = 1.0 / np.cos(min_z_possible)
diff --git a/rubin_sim/maf/metrics/sn_cadence_metric.py b/rubin_sim/maf/metrics/sn_cadence_metric.py
index 5b8dd1b..f91bea3 100644
--- a/rubin_sim/maf/metrics/sn_cadence_metric.py
+++ b/rubin_sim/maf/metrics/sn_cadence_metric.py
@@ -77,7 +77,7 @@ class SNCadenceMetric(metrics.BaseMetric):
         data_slice = data_slice[good_filters]
         if data_slice.size == 0:
             return None
-        data_slice.sort(order=self.mjd_col)
+        data_slice = np.sort(data_slice, order=self.mjd_col)
 
         r = []
         field_ra = np.mean(data_slice[self.ra_col])
diff --git a/rubin_sim/maf/metrics/vector_metrics.py b/rubin_sim/maf/metrics/vector_metrics.py
index 2f357da..8ea4cfa 100644
--- a/rubin_sim/maf/metrics/vector_metrics.py
+++ b/rubin_sim/maf/metrics/vector_metrics.py
@@ -52,7 +52,7 @@ class HistogramMetric(VectorMetric):
         )
 
     def run(self, data_slice, slice_point=None):
-        data_slice.sort(order=self.bin_col)
+        data_slice = np.sort(data_slice, order=self.bin_col)
         result, bin_edges, bin_number = stats.binned_statistic(
             data_slice[self.bin_col],
             data_slice[self.col],
@@ -77,7 +77,7 @@ class AccumulateMetric(VectorMetric):
         self.col = col
 
     def run(self, data_slice, slice_point=None):
-        data_slice.sort(order=self.bin_col)
+        data_slice = np.sort(data_slice, order=self.bin_col)
 
         result = self.function.accumulate(data_slice[self.col])
         indices = np.searchsorted(data_slice[self.bin_col], self.bins[1:], side="right")
@@ -89,7 +89,7 @@ class AccumulateMetric(VectorMetric):
 
 class AccumulateCountMetric(AccumulateMetric):
     def run(self, data_slice, slice_point=None):
-        data_slice.sort(order=self.bin_col)
+        data_slice = np.sort(data_slice, order=self.bin_col)
         to_count = np.ones(data_slice.size, dtype=int)
         result = self.function.accumulate(to_count)
         indices = np.searchsorted(data_slice[self.bin_col], self.bins[1:], side="right")
@@ -119,7 +119,7 @@ class HistogramM5Metric(HistogramMetric):
         self.m5_col = m5_col
 
     def run(self, data_slice, slice_point=None):
-        data_slice.sort(order=self.bin_col)
+        data_slice = np.sort(data_slice, order=self.bin_col)
         flux = 10.0 ** (0.8 * data_slice[self.m5_col])
         result, bin_edges, bin_number = stats.binned_statistic(
             data_slice[self.bin_col], flux, bins=self.bins, statistic="sum"
@@ -140,7 +140,7 @@ class AccumulateM5Metric(AccumulateMetric):
         )
 
     def run(self, data_slice, slice_point=None):
-        data_slice.sort(order=self.bin_col)
+        data_slice = np.sort(data_slice, order=self.bin_col)
         flux = 10.0 ** (0.8 * data_slice[self.m5_col])
 
         result = np.add.accumulate(flux)
@@ -176,7 +176,7 @@ class AccumulateUniformityMetric(AccumulateMetric):
         self.survey_length = survey_length
 
     def run(self, data_slice, slice_point=None):
-        data_slice.sort(order=self.bin_col)
+        data_slice = np.sort(data_slice, order=self.bin_col)
         if data_slice.size == 1:
             return np.ones(self.bins.size - 1, dtype=float)
 
-- 
2.43.0


From 7c7d5e55a454fa8ee3d00394783f81a161e3cb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:42 +0000
Subject: [PATCH 081/150] fix: VisitGapMetric returns badval for a single visit

---
 rubin_sim/maf/metrics/cadence_metrics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/cadence_metrics.py b/rubin_sim/maf/metrics/cadence_metrics.py
index c521003..693d4e0 100644
--- a/rubin_sim/maf/metrics/cadence_metrics.py
+++ b/rubin_sim/maf/metrics/cadence_metrics.py
@@ -396,5 +396,8 @@ class VisitGapMetric(BaseMetric):
     def run(self, data_slice, slice_point=None):
         data_slice = np.sort(data_slice, order=self.mjd_col)
         diff = np.diff(data_slice[self.mjd_col])
-        result = self.reduce_func(diff) * 24.0
+        if np.size(diff) == 0:
+            result = self.badval
+        else:
+            result = self.reduce_func(diff) * 24.0
         return result
-- 
2.43.0


From 93b39a0e7683897cf528acb17bbd033b9d7a39ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:42 +0000
Subject: [PATCH 082/150] fix: GeneralUniformityMetric scales values by their
 range

---
 rubin_sim/maf/metrics/cadence_metrics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/cadence_metrics.py b/rubin_sim/maf/metrics/cadence_metrics.py
index 693d4e0..da564f8 100644
--- a/rubin_sim/maf/metrics/cadence_metrics.py
+++ b/rubin_sim/maf/metrics/cadence_metrics.py
@@ -145,7 +145,10 @@ class GeneralUniformityMetric(BaseMetric):
             max_value = data_slice[self.col].max()
         else:
             max_value = self.max_value
-        scaled_values = (data_slice[self.col] - min_value) / max_value
+        # No spread of values is non-uniform by definition
+        if max_value == min_value:
+            return 1
+        scaled_values = (data_slice[self.col] - min_value) / (max_value - min_value)
         scaled_values.sort()  # Just to be sure
         n_cum = np.arange(0, scaled_values.size) / float(scaled_values.size - 1)
         d_max = np.max(np.abs(n_cum - scaled_values))
-- 
2.43.0


From e644431f5c4b5f1b7e7aa6ed20091a69a87e75ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:03 +0000
Subject: [PATCH 083/150] fix: NightgapsMetric returns badval when all visits
 are in one night

---
 rubin_sim/maf/metrics/tgaps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rubin_sim/maf/metrics/tgaps.py b/rubin_sim/maf/metrics/tgaps.py
index 62c81be..da311ff 100644
--- a/rubin_sim/maf/metrics/tgaps.py
+++ b/rubin_sim/maf/metrics/tgaps.py
@@ -245,6 +245,8 @@ class NightgapsMetric(BaseMetric):
         if data_slice.size < 2:
             return self.badval
         nights = np.sort(np.unique(data_slice[self.night_col]))
+        if nights.size < 2:
+            return self.badval
         if self.all_gaps:
             all_diffs = []
             for i in np.arange(1, nights.size, 1):
-- 
2.43.0


From 52531e13f1d9a0db8b36fcd14085cb2155709d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:03 +0000
Subject: [PATCH 084/150] fix: CoaddM5PerNightMetric uses every night of a
 survey

---
 rubin_sim/maf/metrics/tgaps.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metrics/tgaps.py b/rubin_sim/maf/metrics/tgaps.py
index da311ff..ece9b2b 100644
--- a/rubin_sim/maf/metrics/tgaps.py
+++ b/rubin_sim/maf/metrics/tgaps.py
@@ -327,11 +327,13 @@ class CoaddM5PerNightMetric(BaseMetric):
         super().__init__(col=[self.night_col, self.m5_col], metric_dtype="object", units=units, **kwargs)
 
     def run(self, data_slice, slice_point=None):
+        # Use one bin per observed night
+        nights, night_index = np.unique(data_slice[self.night_col], return_inverse=True)
         m5_per_night, be, bn = binned_statistic(
-            data_slice[self.night_col],
+            night_index,
             data_slice[self.m5_col],
             statistic=coadd_m5,
-            bins=np.arange(0, 3653, 1),
+            bins=np.arange(0, nights.size + 1, 1),
         )
         # Drop the nights with no observations (-inf)
         m5_per_night = m5_per_night[np.where(m5_per_night > 0)]
-- 
2.43.0


From 82e192e3e182f3425c0cca08c723a0f460f7fa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 085/150] fix: PairFractionMetric does not pair a visit with
 itself

---
 rubin_sim/maf/metrics/visit_groups_metric.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/metrics/visit_groups_metric.py b/rubin_sim/maf/metrics/visit_groups_metric.py
index 96757d1..f7d8405 100644
--- a/rubin_sim/maf/metrics/visit_groups_metric.py
+++ b/rubin_sim/maf/metrics/visit_groups_metric.py
@@ -50,20 +50,23 @@ class PairFractionMetric(BaseMetric):
         t_minus = times + self.min_gap
         ind1 = np.searchsorted(times, t_plus, side="right")
         ind2 = np.searchsorted(times, t_minus)
+        # Only look at later visits (min_gap may be 0).
+        ind2 = np.maximum(ind2, np.arange(nobs) + 1)
         # If ind1 and ind2 are the same, there is no pairable image for
         # that exposure
-        diff1 = ind1 - ind2
+        diff1 = ind1 > ind2
 
         # Check which have a back match
         t_plus = times - self.max_gap
         t_minus = times - self.min_gap
         ind1 = np.searchsorted(times, t_plus)
         ind2 = np.searchsorted(times, t_minus, side="right")
-
-        diff2 = ind1 - ind2
+        # Only look at earlier visits.
+        ind2 = np.minimum(ind2, np.arange(nobs))
+        diff2 = ind2 > ind1
 
         # The exposure has a pair ahead or behind
-        is_paired = np.where((diff1 != 0) | (diff2 != 0))[0]
+        is_paired = np.where(diff1 | diff2)[0]
         result = np.size(is_paired) / float(nobs)
         return result
 
-- 
2.43.0


From 3342c4efd12e16e74936940142cba5d68ca9e057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:16 +0000
Subject: [PATCH 086/150] fix: accumulated metrics include only the visits up
 to the end of each bin

---
 rubin_sim/maf/metrics/vector_metrics.py | 26 +++++++++++--------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/rubin_sim/maf/metrics/vector_metrics.py b/rubin_sim/maf/metrics/vector_metrics.py
index 8ea4cfa..2a967a0 100644
--- a/rubin_sim/maf/metrics/vector_metrics.py
+++ b/rubin_sim/maf/metrics/vector_metrics.py
@@ -76,15 +76,19 @@ class AccumulateMetric(VectorMetric):
         )
         self.col = col
 
+    def _at_bin_ends(self, data_slice, accumulated):
+        """Pick the accumulated values at the end of each bin, given
+        the accumulated values of the visits, sorted by bin_col.
+        Bins which end before the first visit are set to badval.
+        """
+        n_visits = np.searchsorted(data_slice[self.bin_col], self.bins[1:], side="right")
+        return np.where(n_visits == 0, self.badval, accumulated[n_visits - 1])
+
     def run(self, data_slice, slice_point=None):
         data_slice = np.sort(data_slice, order=self.bin_col)
 
         result = self.function.accumulate(data_slice[self.col])
-        indices = np.searchsorted(data_slice[self.bin_col], self.bins[1:], side="right")
-        indices[np.where(indices >= np.size(result))] = np.size(result) - 1
-        result = result[indices]
-        result[np.where(indices == 0)] = self.badval
-        return result
+        return self._at_bin_ends(data_slice, result)
 
 
 class AccumulateCountMetric(AccumulateMetric):
@@ -92,11 +96,7 @@ class AccumulateCountMetric(AccumulateMetric):
         data_slice = np.sort(data_slice, order=self.bin_col)
         to_count = np.ones(data_slice.size, dtype=int)
         result = self.function.accumulate(to_count)
-        indices = np.searchsorted(data_slice[self.bin_col], self.bins[1:], side="right")
-        indices[np.where(indices >= np.size(result))] = np.size(result) - 1
-        result = result[indices]
-        result[np.where(indices == 0)] = self.badval
-        return result
+        return self._at_bin_ends(data_slice, result)
 
 
 class HistogramM5Metric(HistogramMetric):
@@ -144,12 +144,8 @@ class AccumulateM5Metric(AccumulateMetric):
         flux = 10.0 ** (0.8 * data_slice[self.m5_col])
 
         result = np.add.accumulate(flux)
-        indices = np.searchsorted(data_slice[self.bin_col], self.bins[1:], side="right")
-        indices[np.where(indices >= np.size(result))] = np.size(result) - 1
-        result = result[indices]
         result = 1.25 * np.log10(result)
-        result[np.where(indices == 0)] = self.badval
-        return result
+        return self._at_bin_ends(data_slice, result)
 
 
 class AccumulateUniformityMetric(AccumulateMetric):
-- 
2.43.0


From 6ad8e914303373a96838ec786ff4e635b428d747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:16 +0000
Subject: [PATCH 087/150] fix: AccumulateUniformityMetric accepts a list of
 bins

---
 rubin_sim/maf/metrics/vector_metrics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metrics/vector_metrics.py b/rubin_sim/maf/metrics/vector_metrics.py
index 2a967a0..704f4c7 100644
--- a/rubin_sim/maf/metrics/vector_metrics.py
+++ b/rubin_sim/maf/metrics/vector_metrics.py
@@ -174,11 +174,12 @@ class AccumulateUniformityMetric(AccumulateMetric):
     def run(self, data_slice, slice_point=None):
         data_slice = np.sort(data_slice, order=self.bin_col)
         if data_slice.size == 1:
-            return np.ones(self.bins.size - 1, dtype=float)
+            return np.ones(np.size(self.bins) - 1, dtype=float)
 
         visits_per_night, blah = np.histogram(data_slice[self.bin_col], bins=self.bins)
         visits_per_night = np.add.accumulate(visits_per_night)
-        expected_per_night = np.arange(0.0, self.bins.size - 1) / (self.bins.size - 2) * data_slice.size
+        n_bins = np.size(self.bins) - 1
+        expected_per_night = np.arange(0.0, n_bins) / (n_bins - 1) * data_slice.size
 
         d_max = np.abs(visits_per_night - expected_per_night)
         d_max = np.maximum.accumulate(d_max)
-- 
2.43.0


From bd7ed12e338b357c804f0f5d46bfc98a591813f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:11 +0000
Subject: [PATCH 088/150] fix: DiscoveryMetric accepts observations in any
 order

---
 rubin_sim/maf/metrics/mo_metrics.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index a06e2a1..d5f7672 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -406,6 +406,7 @@ class DiscoveryMetric(BaseMoMetric):
         #  Identify visits where the 'night' changes.
         vis_sort = np.argsort(sso_obs[self.mjd_col][vis])
         nights = sso_obs[self.night_col][vis][vis_sort]
+        times = sso_obs[self.mjd_col][vis][vis_sort]
         # print 'all nights', nights
         n = np.unique(nights)
         # Identify all the indexes where the night changes in value.
@@ -421,8 +422,8 @@ class DiscoveryMetric(BaseMoMetric):
         n_idx_many = np.searchsorted(nights, n_with_x_obs)
         n_idx_many_end = np.searchsorted(nights, n_with_x_obs, side="right") - 1
         # Check that nObsPerNight observations are within tMin/tMax
-        times_start = sso_obs[self.mjd_col][vis][vis_sort][n_idx_many]
-        times_end = sso_obs[self.mjd_col][vis][vis_sort][n_idx_many_end]
+        times_start = times[n_idx_many]
+        times_end = times[n_idx_many_end]
         # Identify the nights with 'clearly good' observations.
         good = np.where(
             (times_end - times_start >= self.t_min) & (times_end - times_start <= self.t_max),
@@ -436,8 +437,8 @@ class DiscoveryMetric(BaseMoMetric):
             & (n_idx_many_end + 1 - n_idx_many > self.n_obs_per_night)
             & (times_end - times_start > self.t_max)
         )[0]
-        for i, j, c in zip(vis_sort[n_idx_many][check], vis_sort[n_idx_many_end][check], check):
-            t = sso_obs[self.mjd_col][vis][vis_sort][i : j + 1]
+        for i, j, c in zip(n_idx_many[check], n_idx_many_end[check], check):
+            t = times[i : j + 1]
             dtimes = (np.roll(t, 1 - self.n_obs_per_night) - t)[:-1]
             tidx = np.where((dtimes >= self.t_min) & (dtimes <= self.t_max))[0]
             if len(tidx) > 0:
@@ -445,27 +446,24 @@ class DiscoveryMetric(BaseMoMetric):
         # 'good' provides mask for observations which could count as
         # 'good to make tracklets' against sso_obs[vis_sort][n_idx_many].
         # Now identify tracklets which can make tracks.
-        good_idx = vis_sort[n_idx_many][good == 1]
-        good_idx_ends = vis_sort[n_idx_many_end][good == 1]
+        good_idx = n_idx_many[good == 1]
+        good_idx_ends = n_idx_many_end[good == 1]
         # print 'good tracklets', nights[good_idx]
         if len(good_idx) < self.n_nights_per_window:
             return self.badval
         delta_nights = (
-            np.roll(sso_obs[self.night_col][vis][good_idx], 1 - self.n_nights_per_window)
-            - sso_obs[self.night_col][vis][good_idx]
+            np.roll(nights[good_idx], 1 - self.n_nights_per_window)
+            - nights[good_idx]
         )
-        # Identify the index in sso_obs[vis][good_idx] (sorted by mjd)
+        # Identify the index in sso_obs[vis][vis_sort][good_idx] (sorted by mjd)
         # where the discovery opportunity starts.
         start_idxs = np.where((delta_nights >= 0) & (delta_nights <= self.t_window))[0]
         # Identify the index where the discovery opportunity ends.
         end_idxs = np.zeros(len(start_idxs), dtype="int")
         for i, sIdx in enumerate(start_idxs):
-            in_window = np.where(
-                sso_obs[self.night_col][vis][good_idx] - sso_obs[self.night_col][vis][good_idx][sIdx]
-                <= self.t_window
-            )[0]
+            in_window = np.where(nights[good_idx] - nights[good_idx][sIdx] <= self.t_window)[0]
             end_idxs[i] = in_window.max()
-        # Convert back to index based on sso_obs[vis] (sorted by expMJD).
+        # Convert back to index based on sso_obs[vis][vis_sort] (sorted by expMJD).
         start_idxs = good_idx[start_idxs]
         end_idxs = good_idx_ends[end_idxs]
         return {
-- 
2.43.0


From 7a5413e212e88c3649d65f7298aff296f7aee7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:11 +0000
Subject: [PATCH 089/150] fix: DiscoveryMetric finds every set of observations
 which can make a tracklet

---
 rubin_sim/maf/metrics/mo_metrics.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index d5f7672..b517b90 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -439,10 +439,12 @@ class DiscoveryMetric(BaseMoMetric):
         )[0]
         for i, j, c in zip(n_idx_many[check], n_idx_many_end[check], check):
             t = times[i : j + 1]
-            dtimes = (np.roll(t, 1 - self.n_obs_per_night) - t)[:-1]
-            tidx = np.where((dtimes >= self.t_min) & (dtimes <= self.t_max))[0]
-            if len(tidx) > 0:
-                good[c] = 1
+            for k in range(len(t)):
+                # The observations within tMax of this one.
+                dtimes = t[k:][t[k:] - t[k] <= self.t_max] - t[k]
+                if len(dtimes) >= self.n_obs_per_night and dtimes[-1] >= self.t_min:
+                    good[c] = 1
+                    break
         # 'good' provides mask for observations which could count as
         # 'good to make tracklets' against sso_obs[vis_sort][n_idx_many].
         # Now identify tracklets which can make tracks.
-- 
2.43.0


From 1b012ddb570a43644a675cf577d936cef33f7fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:11 +0000
Subject: [PATCH 090/150] fix: DiscoveryNObsMetric counts all observations in
 the track

---
 rubin_sim/maf/metrics/mo_metrics.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index b517b90..25b2695 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -465,12 +465,17 @@ class DiscoveryMetric(BaseMoMetric):
         for i, sIdx in enumerate(start_idxs):
             in_window = np.where(nights[good_idx] - nights[good_idx][sIdx] <= self.t_window)[0]
             end_idxs[i] = in_window.max()
+        # Count the observations on the nights with tracklets in each track.
+        n_obs = np.zeros(len(start_idxs), dtype="int")
+        for i, (s, e) in enumerate(zip(start_idxs, end_idxs)):
+            n_obs[i] = np.sum(good_idx_ends[s : e + 1] - good_idx[s : e + 1] + 1)
         # Convert back to index based on sso_obs[vis][vis_sort] (sorted by expMJD).
         start_idxs = good_idx[start_idxs]
         end_idxs = good_idx_ends[end_idxs]
         return {
             "start": start_idxs[0:1],
             "end": end_idxs[0:1],
+            "n_obs": n_obs[0:1],
             "n_chances": len(start_idxs),
             # "trackletNights": sso_obs[self.night_col][vis][good_idx][0],
         }
@@ -537,10 +542,7 @@ class DiscoveryNObsMetric(BaseChildMetric):
     def run(self, sso_obs, orb, hval, metric_values):
         if self.i >= len(metric_values["start"]):
             return 0
-        start_idx = metric_values["start"][self.i]
-        end_idx = metric_values["end"][self.i]
-        nobs = end_idx - start_idx
-        return nobs
+        return metric_values["n_obs"][self.i]
 
 
 class DiscoveryTimeMetric(BaseChildMetric):
-- 
2.43.0


From 992e2509d767af597b59d781fe2be9048699e83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:11 +0000
Subject: [PATCH 091/150] fix: DiscoveryVelocityMetric can be created

---
 rubin_sim/maf/metrics/mo_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index 25b2695..1f1ffc3 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -688,7 +688,7 @@ class DiscoveryVelocityMetric(BaseChildMetric):
     def __init__(self, parent_discovery_metric, badval=-999, **kwargs):
         super().__init__(parent_discovery_metric, badval=badval, **kwargs)
         self.i = 0
-        self.snr_limit = parent_discovery_metric.snrLimit
+        self.snr_limit = parent_discovery_metric.snr_limit
 
     def run(self, sso_obs, orb, hval, metric_values):
         if self.i >= len(metric_values["start"]):
-- 
2.43.0


From 35d1a6a5696bdea917800f2e3316bb3c72f81fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:11 +0000
Subject: [PATCH 092/150] fix: MagicDiscoveryMetric accepts observations in any
 order

---
 rubin_sim/maf/metrics/mo_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index 1f1ffc3..b6da0e0 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -872,7 +872,7 @@ class MagicDiscoveryMetric(BaseMoMetric):
         vis = _set_vis(sso_obs, self.snr_limit, self.snr_col, self.vis_col)
         if len(vis) < self.n_obs:
             return self.badval
-        t_nights = np.sort(sso_obs[self.night_col])[vis]
+        t_nights = np.sort(sso_obs[self.night_col][vis])
         u_nights = np.unique(t_nights)
         indx_w = np.searchsorted(t_nights, u_nights, "left")
         indx_p = np.searchsorted(t_nights - self.t_window, u_nights, "left")
-- 
2.43.0


From d73a3425a4bda4d4b7b6238f2974baf399453ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:11 +0000
Subject: [PATCH 093/150] fix: HighVelocityNightsMetric returns the time of the
 first trailed detection

---
 rubin_sim/maf/metrics/mo_metrics.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index b6da0e0..30e361f 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -965,18 +965,14 @@ class HighVelocityNightsMetric(BaseMoMetric):
         if len(high_velocity_obs) == 0:
             return 0
         nights = sso_obs[self.night_col][vis][high_velocity_obs]
-        n = np.unique(nights)
-        n_idx = np.searchsorted(nights, n)
-        # Count the number of observations per night (except last night)
-        obs_per_night = (n_idx - np.roll(n_idx, 1))[1:]
-        # Add the number of observations on the last night.
-        obs_last_night = np.array([len(nights) - n_idx[-1]])
-        obs_per_night = np.concatenate((obs_per_night, obs_last_night))
+        # Count the number of observations per night
+        n, obs_per_night = np.unique(nights, return_counts=True)
         # Find the nights with at least nObsPerNight visits
         # (this is already looking at only high velocity observations).
         n_with_x_obs = n[np.where(obs_per_night >= self.n_obs_per_night)]
         if len(n_with_x_obs) > 0:
-            found = sso_obs[np.where(sso_obs[self.night_col] == n_with_x_obs[0])][self.mjd_col][0]
+            times = sso_obs[self.mjd_col][vis][high_velocity_obs]
+            found = times[np.where(nights == n_with_x_obs[0])].min()
         else:
             found = self.badval
         return found
-- 
2.43.0


From f1a0b56cb291cc6fb3e559c08b83fd4953efd679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:11 +0000
Subject: [PATCH 094/150] fix: InstantaneousColorMetric only pairs observations
 within n_hours

---
 rubin_sim/maf/metrics/mo_metrics.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index 30e361f..0ff2fe2 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -1324,15 +1324,18 @@ class InstantaneousColorMetric(BaseMoMetric):
             return 0
         b_one_obs = np.where(sso_obs[self.filter_col][vis] == self.b_one)[0]
         b_two_obs = np.where(sso_obs[self.filter_col][vis] == self.b_two)[0]
-        timesb_one = sso_obs[self.mjd_col][vis][b_one_obs]
+        timesb_one = np.sort(sso_obs[self.mjd_col][vis][b_one_obs])
         timesb_two = sso_obs[self.mjd_col][vis][b_two_obs]
         if len(timesb_one) == 0 or len(timesb_two) == 0:
             return 0
         d_time = self.n_hours / 24.0
         # Calculate the time between the closest pairs of observations.
         in_order = np.searchsorted(timesb_one, timesb_two, "right")
-        in_order = np.where(in_order - 1 > 0, in_order - 1, 0)
-        dt_pairs = timesb_two - timesb_one[in_order]
+        before = np.where(in_order - 1 > 0, in_order - 1, 0)
+        after = np.where(in_order < len(timesb_one), in_order, len(timesb_one) - 1)
+        dt_pairs = np.minimum(
+            np.abs(timesb_two - timesb_one[before]), np.abs(timesb_two - timesb_one[after])
+        )
         if len(np.where(dt_pairs < d_time)[0]) >= self.n_pairs:
             found = 1
         else:
-- 
2.43.0


From 5c990d19d75636ca53af32c526ed6a72f3d581da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:11 +0000
Subject: [PATCH 095/150] fix: ColorAsteroidMetric uses bands with exactly the
 required weight

---
 rubin_sim/maf/metrics/mo_metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index 0ff2fe2..bdeb159 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -1156,8 +1156,8 @@ class ColorAsteroidMetric(BaseMoMetric):
         for f in self.filterlist:
             match = np.where(sso_obs[self.filter_col] == f)
             snrweight = np.sum(clip_snr[match]) / self.snr_max
-            # If the snrweight exceeds the weightDet, add it to the dictionary.
-            if snrweight > self.weight_det:
+            # If the snrweight is at least the weightDet, add it to the dictionary.
+            if snrweight >= self.weight_det:
                 filter_weight[f] = snrweight
 
         # Now assign a flag:
-- 
2.43.0


From b69b3bc65e7e65396dcb069cc4dd2d4094cf0e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:11 +0000
Subject: [PATCH 096/150] fix: ActivityOverTimeMetric divides by the number of
 windows

---
 rubin_sim/maf/metrics/mo_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index bdeb159..111fc3f 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -738,7 +738,7 @@ class ActivityOverTimeMetric(BaseMoMetric):
         self.window = window
         self.survey_years = survey_years
         self.window_bins = np.arange(0, self.survey_years * 365 + self.window / 2.0, self.window)
-        self.n_windows = len(self.window_bins)
+        self.n_windows = len(self.window_bins) - 1
         self.units = "%.1f Day Windows" % (self.window)
 
     def run(self, sso_obs, orb, hval):
-- 
2.43.0


From 7ead7c183717b439a58a58703728f167083eee46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:24 +0000
Subject: [PATCH 097/150] fix: OverheadStacker accepts visits in any order

---
 rubin_sim/maf/stackers/general_stackers.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/stackers/general_stackers.py b/rubin_sim/maf/stackers/general_stackers.py
index 83fce9e..cfe5a3f 100644
--- a/rubin_sim/maf/stackers/general_stackers.py
+++ b/rubin_sim/maf/stackers/general_stackers.py
@@ -826,9 +826,15 @@ class OverheadStacker(BaseStacker):
         # This is all non-exposure time required for this visit --
         # includes slew time to this target, any shutter overheads for this
         # visit, and any readouts not absorbed in slewtime for this visit.
-        observation_end_mjd = sim_data[self.mjd_col] + sim_data[self.visit_time_col] / (24 * 60 * 60)
+        # The previous visit is the previous one in time, which need not be
+        # the preceding row.
+        time_order = np.argsort(np.asarray(sim_data[self.mjd_col]), kind="stable")
+        observation_end_mjd = np.asarray(
+            sim_data[self.mjd_col] + sim_data[self.visit_time_col] / (24 * 60 * 60)
+        )[time_order]
         overhead = (
-            np.diff(observation_end_mjd, prepend=np.nan) * 24 * 60 * 60 - sim_data[self.exposure_time_col]
+            np.diff(observation_end_mjd, prepend=np.nan) * 24 * 60 * 60
+            - np.asarray(sim_data[self.exposure_time_col])[time_order]
         )
 
         # Rough heuristic not to count downtime due to weather or instrument
@@ -845,9 +851,12 @@ class OverheadStacker(BaseStacker):
         # catch all delays in the night. (The comment above.) But, in
         # even in this case, we would still not want to include gaps between
         # nights.
-        day_obs_mjd = self.day_obs_mjd_stacker.run(sim_data)["day_obs_mjd"]
+        day_obs_mjd = np.asarray(self.day_obs_mjd_stacker.run(sim_data)["day_obs_mjd"])[time_order]
         different_night = np.diff(day_obs_mjd, prepend=np.nan) != 0
         overhead[different_night] = np.nan
 
-        sim_data[self.cols_added[0]] = overhead
+        # Put the values back in the order of the visits given.
+        overhead_by_visit = np.empty(len(overhead), dtype=float)
+        overhead_by_visit[time_order] = overhead
+        sim_data[self.cols_added[0]] = overhead_by_visit
         return sim_data
-- 
2.43.0


From 0605eac4137e1edfe27f2c84f4b5382567ed55fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:24 +0000
Subject: [PATCH 098/150] fix: ParallacticAngleStacker declares the units it
 returns

---
 rubin_sim/maf/stackers/general_stackers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/general_stackers.py b/rubin_sim/maf/stackers/general_stackers.py
index cfe5a3f..9e17d3a 100644
--- a/rubin_sim/maf/stackers/general_stackers.py
+++ b/rubin_sim/maf/stackers/general_stackers.py
@@ -741,7 +741,7 @@ class ParallacticAngleStacker(BaseStacker):
         self.degrees = degrees
         self.mjd_col = mjd_col
         self.site = Site(name=site)
-        self.units = ["radians"]
+        self.units = ["degrees" if self.degrees else "radians"]
         self.cols_req = [self.ra_col, self.dec_col, self.mjd_col, self.lst_col]
         self.ha_stacker = HourAngleStacker(lst_col=lst_col, ra_col=ra_col, degrees=self.degrees)
 
-- 
2.43.0


From 929d29e2187830640acdb0be4d9bd1accb965ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:24 +0000
Subject: [PATCH 099/150] fix: TeffStacker declares one unit per column

---
 rubin_sim/maf/stackers/teff_stacker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/teff_stacker.py b/rubin_sim/maf/stackers/teff_stacker.py
index e311431..e5629d3 100644
--- a/rubin_sim/maf/stackers/teff_stacker.py
+++ b/rubin_sim/maf/stackers/teff_stacker.py
@@ -127,7 +127,7 @@ class TeffStacker(BaseStacker):
         if self.normed and self.exptime_col not in self.cols_req:
             self.cols_req.append(self.exptime_col)
 
-        self.units = "" if self.normed else "seconds"
+        self.units = ["" if self.normed else "seconds"]
 
     def _run(self, sim_data, cols_present=False):
         if cols_present:
-- 
2.43.0


From 3154ac1d9d6c6cd8b2555fde38b246cde40b2bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:24 +0000
Subject: [PATCH 100/150] fix: GalacticStacker declares the units it returns

---
 rubin_sim/maf/stackers/coord_stackers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/stackers/coord_stackers.py b/rubin_sim/maf/stackers/coord_stackers.py
index 8f86411..0fec6f9 100644
--- a/rubin_sim/maf/stackers/coord_stackers.py
+++ b/rubin_sim/maf/stackers/coord_stackers.py
@@ -96,10 +96,9 @@ class GalacticStacker(BaseStacker):
         self.ra_col = ra_col
         self.dec_col = dec_col
         self.degrees = degrees
-        if self.degrees:
-            self.units = ["degrees", "degrees"]
-        else:
-            self.units = ["radians", "radians"]
+        # The galactic coordinates are in radians, whatever the units of
+        # ra_col and dec_col.
+        self.units = ["radians", "radians"]
 
     def _run(self, sim_data, cols_present=False):
         # raCol and DecCol in radians, gall/b in radians.
-- 
2.43.0


From c9d41dc6f3388121f7e7862a48ded8c8798c3dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:24 +0000
Subject: [PATCH 101/150] fix: ObservationStartTimestampStacker leaves the
 visits it is given alone

---
 rubin_sim/maf/stackers/date_stackers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/date_stackers.py b/rubin_sim/maf/stackers/date_stackers.py
index 9827ea9..956e033 100644
--- a/rubin_sim/maf/stackers/date_stackers.py
+++ b/rubin_sim/maf/stackers/date_stackers.py
@@ -59,7 +59,7 @@ class ObservationStartTimestampStacker(BaseStacker):
         # clobbers the type for the new column,
         # which we really need.
 
-        visits = sim_data if isinstance(sim_data, pd.DataFrame) else pd.DataFrame(sim_data)
+        visits = sim_data.copy() if isinstance(sim_data, pd.DataFrame) else pd.DataFrame(sim_data)
 
         if "start_timestamp" in visits.columns and not override:
             return sim_data
-- 
2.43.0


From ee3d69d70de6bbf4b29964bfd9faebdb9941a678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:35 +0000
Subject: [PATCH 102/150] fix: record the data file of a metric which is
 written after it was recorded

---
 rubin_sim/maf/db/results_db.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/db/results_db.py b/rubin_sim/maf/db/results_db.py
index f97b210..61ba9a3 100644
--- a/rubin_sim/maf/db/results_db.py
+++ b/rubin_sim/maf/db/results_db.py
@@ -432,7 +432,8 @@ class ResultsDb:
             The Id number of this metric in the metrics table.
 
         If same metric (same metric_name, slicer_name, run_name,
-        sql_constraint, infoLabel) already exists, it does nothing.
+        sql_constraint, infoLabel) already exists, it does nothing
+        (except to set the data file, if that was not known before).
         """
         self.open()
         if run_name is None:
@@ -468,6 +469,11 @@ class ResultsDb:
             self.session.commit()
         else:
             metricinfo = prev[0]
+            # The metric may have been recorded (such as with its summary
+            # statistics) before it was written to disk.
+            if metricinfo.metric_datafile == "NULL" and metric_datafile != "NULL":
+                metricinfo.metric_datafile = metric_datafile
+                self.session.commit()
         self.close()
 
         return metricinfo.metric_id
-- 
2.43.0


From ff5c9f6680a4eddea543492318f249ea154cd546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:35 +0000
Subject: [PATCH 103/150] fix: run moving object metric bundles with their own
 stackers only

---
 rubin_sim/maf/metric_bundles/mo_metric_bundle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/metric_bundles/mo_metric_bundle.py b/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
index 5a51260..9f6e2d6 100644
--- a/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
@@ -531,9 +531,9 @@ class MoMetricBundleGroup:
         all_stackers = []
         uniq_maps = []
         all_maps = []
-        for b in b_dict.values():
-            all_stackers += b.stacker_list
-            all_maps += b.maps_list
+        for k in compatible_list:
+            all_stackers += b_dict[k].stacker_list
+            all_maps += b_dict[k].maps_list
         for s in all_stackers:
             if s not in uniq_stackers:
                 uniq_stackers.append(s)
-- 
2.43.0


From 9f899ff5946134a8baf49905e023bae76080017f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:57 +0000
Subject: [PATCH 104/150] fix: MoObjSlicer finds the observations of objects
 with names

---
 rubin_sim/maf/slicers/mo_slicer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/slicers/mo_slicer.py b/rubin_sim/maf/slicers/mo_slicer.py
index 70b367d..db7bc29 100644
--- a/rubin_sim/maf/slicers/mo_slicer.py
+++ b/rubin_sim/maf/slicers/mo_slicer.py
@@ -129,10 +129,10 @@ class MoObjSlicer(BaseSlicer):
         # Find the matching orbit.
         orb = self.orbits.iloc[idx]
         # Find the matching observations.
-        if self.obs["obj_id"].dtype == "object":
-            obs = self.obs.query('obj_id == "%s"' % (orb["obj_id"]))
+        if pd.api.types.is_numeric_dtype(self.obs["obj_id"]):
+            obs = self.obs[self.obs["obj_id"] == orb["obj_id"]]
         else:
-            obs = self.obs.query("obj_id == %d" % (orb["obj_id"]))
+            obs = self.obs[self.obs["obj_id"] == str(orb["obj_id"])]
         # Return the values for H to consider for metric.
         if self.Hrange is not None:
             Hvals = self.Hrange
-- 
2.43.0


From 34f22a980589b454807e438a0f95e057c0cdfc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:40 +0000
Subject: [PATCH 105/150] fix: run moving object metric bundles together only
 if their stackers do not interfere

---
 rubin_sim/maf/metric_bundles/mo_metric_bundle.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/mo_metric_bundle.py b/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
index 9f6e2d6..b7f9e20 100644
--- a/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
@@ -413,7 +413,7 @@ class MoMetricBundleGroup:
             return False
         if metric_bundle1.slicer != metric_bundle2.slicer:
             return False
-        if metric_bundle1.maps_list.sort() != metric_bundle2.maps_list.sort():
+        if sorted(metric_bundle1.maps_list) != sorted(metric_bundle2.maps_list):
             return False
         for stacker in metric_bundle1.stacker_list:
             for stacker2 in metric_bundle2.stacker_list:
@@ -421,6 +421,15 @@ class MoMetricBundleGroup:
                 # and if they are identical, that's ok.
                 if (stacker.__class__.__name__ == stacker2.__class__.__name__) & (stacker != stacker2):
                     return False
+        # A stacker which is only used by one of the bundles must not
+        # change a column which the other bundle reads or sets.
+        for bundle, other in ((metric_bundle1, metric_bundle2), (metric_bundle2, metric_bundle1)):
+            cols_used = set(other.metric.cols_req)
+            for stacker in other.stacker_list:
+                cols_used |= set(stacker.cols_req) | set(stacker.cols_added)
+            for stacker in bundle.stacker_list:
+                if stacker not in other.stacker_list and not cols_used.isdisjoint(stacker.cols_added):
+                    return False
         # But if we got this far, everything matches.
         return True
 
-- 
2.43.0


From 78f4784e2ba08f3c3a7ce136956c26f1c7fce778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:38 +0000
Subject: [PATCH 106/150] fix: MoMagStacker names the columns it requires when
 magnitudes are given

---
 rubin_sim/maf/stackers/mo_stackers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rubin_sim/maf/stackers/mo_stackers.py b/rubin_sim/maf/stackers/mo_stackers.py
index 819de25..be98576 100644
--- a/rubin_sim/maf/stackers/mo_stackers.py
+++ b/rubin_sim/maf/stackers/mo_stackers.py
@@ -134,6 +134,7 @@ class MoMagStacker(BaseMoStacker):
             ]
         else:
             self.mag_stacker = AppMagNullStacker()
+            self.cols_req = [m5_col] + self.mag_stacker.cols_req
         self.snr_stacker = SNRStacker(
             app_mag_col="appMag",
             m5_col=m5_col,
-- 
2.43.0


From bc564d7c8f26ca5d69f8e1972d8c069897b503b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:55 +0000
Subject: [PATCH 107/150] fix: pha_dndh_grav can be evaluated

---
 rubin_sim/maf/metrics/mo_summary_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/mo_summary_metrics.py b/rubin_sim/maf/metrics/mo_summary_metrics.py
index 451d8a1..98c9c8e 100644
--- a/rubin_sim/maf/metrics/mo_summary_metrics.py
+++ b/rubin_sim/maf/metrics/mo_summary_metrics.py
@@ -77,7 +77,7 @@ def pha_dndh_granvik(hvalues, **kwargs):
 
 
 def pha_dndh_grav(hvalues, **kwargs):
-    binratio = (np.diff(hvalues, append=hvalues[-1] + np.diff[hvalues][-1])) / 0.1
+    binratio = (np.diff(hvalues, append=hvalues[-1] + np.diff(hvalues)[-1])) / 0.1
     y1 = 23.5 * np.power(10, 0.35 * (hvalues - 18.5))
     dndh = y1 * binratio
     return dndh
-- 
2.43.0


From 23da88c6bdbdaf69ee795b6c699385ef5b6308a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:55 +0000
Subject: [PATCH 108/150] fix: cumulative completeness uses the requested size
 distribution index

---
 rubin_sim/maf/metrics/mo_summary_metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_summary_metrics.py b/rubin_sim/maf/metrics/mo_summary_metrics.py
index 98c9c8e..6c0597f 100644
--- a/rubin_sim/maf/metrics/mo_summary_metrics.py
+++ b/rubin_sim/maf/metrics/mo_summary_metrics.py
@@ -352,7 +352,7 @@ class MoCompletenessMetric(BaseMoMetric):
             completeness = n_found.astype(float) / n_all.astype(float)
             completeness = np.where(n_all == 0, 0, completeness)
         if self.cumulative:
-            completeness_int = integrate_over_h(completeness, h_vals, power_law_dndh, Hindex=self.hindex)
+            completeness_int = integrate_over_h(completeness, h_vals, power_law_dndh, hindex=self.hindex)
             summary_val = np.empty(len(completeness_int), dtype=[("name", np.str_, 20), ("value", float)])
             summary_val["value"] = completeness_int
             for i, Hval in enumerate(h_vals):
@@ -447,7 +447,7 @@ class MoCompletenessAtTimeMetric(BaseMoMetric):
         completeness = completeness_h.swapaxes(0, 1)
         if self.cumulative:
             for i, t in enumerate(self.times):
-                completeness[i] = integrate_over_h(completeness[i], h_vals)
+                completeness[i] = integrate_over_h(completeness[i], h_vals, power_law_dndh, hindex=self.hindex)
         # To save the summary statistic, we must pick out a given H value.
         if self.hval is None:
             hidx = len(h_vals) // 2
-- 
2.43.0


From d8f35f1f4396ce43e7ffefc0698fbddd236002b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:55 +0000
Subject: [PATCH 109/150] fix: MoCompletenessMetric bins objects by their H
 magnitude

---
 rubin_sim/maf/metrics/mo_summary_metrics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_summary_metrics.py b/rubin_sim/maf/metrics/mo_summary_metrics.py
index 6c0597f..740243a 100644
--- a/rubin_sim/maf/metrics/mo_summary_metrics.py
+++ b/rubin_sim/maf/metrics/mo_summary_metrics.py
@@ -342,13 +342,13 @@ class MoCompletenessMetric(BaseMoMetric):
             min_h = h_vals.min()
             if hrange < self.min_hrange:
                 hrange = self.min_hrange
-                min_h = h_vals.min() - hrange / 2.0
+                min_h = (h_vals.min() + h_vals.max()) / 2.0 - hrange / 2.0
             stepsize = hrange / float(self.nbins)
             bins = np.arange(min_h, min_h + hrange + stepsize / 2.0, stepsize)
+            n_all, b = np.histogram(h_vals, bins)
+            condition = np.where(metric_val_h[0].filled(0) >= self.threshold)[0]
+            n_found, b = np.histogram(np.asarray(h_vals)[condition], bins)
             h_vals = bins[:-1]
-            n_all, b = np.histogram(metric_val_h[0], bins)
-            condition = np.where(metric_val_h[0] >= self.threshold)[0]
-            n_found, b = np.histogram(metric_val_h[0][condition], bins)
             completeness = n_found.astype(float) / n_all.astype(float)
             completeness = np.where(n_all == 0, 0, completeness)
         if self.cumulative:
-- 
2.43.0


From 43a1f5ae785239ee8456c7cb59ea572f9127bc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:55 +0000
Subject: [PATCH 110/150] fix: MoCompletenessAtTimeMetric accepts its default H
 magnitude

---
 rubin_sim/maf/metrics/mo_summary_metrics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_summary_metrics.py b/rubin_sim/maf/metrics/mo_summary_metrics.py
index 740243a..e3fb463 100644
--- a/rubin_sim/maf/metrics/mo_summary_metrics.py
+++ b/rubin_sim/maf/metrics/mo_summary_metrics.py
@@ -395,12 +395,13 @@ class MoCompletenessAtTimeMetric(BaseMoMetric):
         self.hval = hval
         self.times = times
         self.hindex = hindex
+        at_h = "" if self.hval is None else "@H=%.2f" % self.hval
         if cumulative is None:
             # if metric_name does not start with 'differential',
             # then cumulative->True
             if "metric_name" not in kwargs:
                 self.cumulative = True
-                metric_name = "CumulativeCompleteness@Time@H=%.2f" % self.hval
+                metric_name = "CumulativeCompleteness@Time" + at_h
             else:
                 #  'metric_name' in kwargs:
                 metric_name = kwargs.pop("metric_name")
@@ -417,9 +418,9 @@ class MoCompletenessAtTimeMetric(BaseMoMetric):
                     warnings.warn(f"Completeness metric_name is {metric_name} but cumulative is True")
             else:
                 if self.cumulative:
-                    metric_name = "CumulativeCompleteness@Time@H=%.2f" % self.hval
+                    metric_name = "CumulativeCompleteness@Time" + at_h
                 else:
-                    metric_name = "DifferentialCompleteness@Time@H=%.2f" % self.hval
+                    metric_name = "DifferentialCompleteness@Time" + at_h
         self._set_labels()
         super().__init__(metric_name=metric_name, units=self.units, **kwargs)
 
-- 
2.43.0


From 6ccce9dbd2130c3f9acd7682b0d28b98dff98be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:23 +0000
Subject: [PATCH 111/150] fix: ChebyValues leaves the coefficients of ChebyFits
 unchanged

---
 rubin_sim/moving_objects/cheby_values.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/moving_objects/cheby_values.py b/rubin_sim/moving_objects/cheby_values.py
index 6137443..ff22032 100644
--- a/rubin_sim/moving_objects/cheby_values.py
+++ b/rubin_sim/moving_objects/cheby_values.py
@@ -46,14 +46,13 @@ class ChebyValues:
             ChebyFits object, with attribute 'coeffs' -
             a dictionary of lists of coefficients.
         """
-        self.coeffs = cheby_fits.coeffs
-        # Convert list of coefficients into numpy arrays.
-        for k in self.coeffs:
-            self.coeffs[k] = np.array(self.coeffs[k])
+        # Convert list of coefficients into numpy arrays
+        # (without changing the values in cheby_fits).
+        self.coeffs = {k: np.array(cheby_fits.coeffs[k]) for k in cheby_fits.coeffs}
         # Check that expected values were received.
         missing_keys = set(self.coeff_keys) - set(self.coeffs)
         if len(missing_keys) > 0:
-            raise ValueError("Expected to find key(s) %s in coefficients." % " ".join(list[missing_keys]))
+            raise ValueError("Expected to find key(s) %s in coefficients." % " ".join(missing_keys))
         self.coeffs["meanRA"] = self.coeffs["ra"].swapaxes(0, 1)[0]
         self.coeffs["meanDec"] = self.coeffs["dec"].swapaxes(0, 1)[0]
 
-- 
2.43.0


From 3dad5b4d09b55bf0bb1af0dc70aa115d036871e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:23 +0000
Subject: [PATCH 112/150] fix: ChebyValues.get_ephemerides evaluates each
 object from its own segments

---
 rubin_sim/moving_objects/cheby_values.py | 76 +++++++++---------------
 1 file changed, 29 insertions(+), 47 deletions(-)

diff --git a/rubin_sim/moving_objects/cheby_values.py b/rubin_sim/moving_objects/cheby_values.py
index ff22032..480ef95 100644
--- a/rubin_sim/moving_objects/cheby_values.py
+++ b/rubin_sim/moving_objects/cheby_values.py
@@ -154,10 +154,9 @@ class ChebyValues:
     def get_ephemerides(self, times, obj_ids=None, extrapolate=False):
         """Find the ephemeris information for 'obj_ids' at 'time'.
 
-        Implicit in how this is currently written is that the segments
-        are all expected to cover the same start/end time range across
-        all objects.
-        They do not have to have the same segment length for all objects.
+        Each object is evaluated using its own segments. The segments do
+        not have to cover the same start/end time range or have the same
+        segment length for all objects.
 
         Parameters
         ----------
@@ -169,62 +168,45 @@ class ChebyValues:
         extrapolate : `bool`, opt
             If True, extrapolate beyond ends of segments if time
             outside of segment range.
-            If False, return ValueError if time is beyond range of segments.
+            If False, the ephemeris values are NaN for times which are
+            not covered by the segments of an object.
 
         Returns
         -------
         ephemerides : `np.ndarray`
             The ephemeris positions for all objects.
-            Note that these may not be sorted in the same order as obj_ids.
         """
-        if isinstance(times, float) or isinstance(times, int):
-            times = np.array([times], float)
+        times = np.atleast_1d(np.asarray(times, dtype=float))
         ntimes = len(times)
         ephemerides = {}
         # Find subset of segments which match obj_id, if specified.
         if obj_ids is None:
-            obj_match = np.ones(len(self.coeffs["obj_id"]), dtype=bool)
             ephemerides["obj_id"] = np.unique(self.coeffs["obj_id"])
         else:
-            if isinstance(obj_ids, str) or isinstance(obj_ids, int):
-                obj_ids = np.array([obj_ids])
-            obj_match = np.isin(self.coeffs["obj_id"], obj_ids)
-            ephemerides["obj_id"] = obj_ids
-        # Now find ephemeris values.
-        ephemerides["time"] = np.zeros((len(ephemerides["obj_id"]), ntimes), float) + times
-        for k in self.ephemeris_keys:
-            ephemerides[k] = np.zeros((len(ephemerides["obj_id"]), ntimes), float)
-        for it, t in enumerate(times):
-            # Find subset of segments which contain the appropriate time.
-            # Look for simplest subset first.
-            segments = np.where(
-                (self.coeffs["t_start"][obj_match] <= t) & (self.coeffs["t_end"][obj_match] > t)
-            )[0]
-            if len(segments) == 0:
-                seg_start = self.coeffs["t_start"][obj_match].min()
-                seg_end = self.coeffs["t_end"][obj_match].max()
-                if seg_start > t or seg_end < t:
-                    if not extrapolate:
-                        for k in self.ephemeris_keys:
-                            ephemerides[k][:, it] = np.nan
-                    else:
-                        # Find the segments to use to extrapolate the times.
-                        if seg_start > t:
-                            segments = np.where(self.coeffs["t_start"][obj_match] == seg_start)[0]
-                        if seg_end < t:
-                            segments = np.where(self.coeffs["t_end"][obj_match] == seg_end)[0]
-                elif seg_end == t:
-                    # Not extrapolating, but outside the
-                    # simple match case above.
-                    segments = np.where(self.coeffs["t_end"][obj_match] == seg_end)[0]
-            for i, segmentIdx in enumerate(segments):
-                ephemeris = self._eval_segment(segmentIdx, t, obj_match, mask=False)
-                for k in self.ephemeris_keys:
-                    ephemerides[k][i][it] = ephemeris[k]
-                ephemerides["obj_id"][i] = self.coeffs["obj_id"][obj_match][segmentIdx]
-        if obj_ids is not None:
-            if set(ephemerides["obj_id"]) != set(obj_ids):
+            ephemerides["obj_id"] = np.array(obj_ids, ndmin=1)
+            if not np.all(np.isin(ephemerides["obj_id"], self.coeffs["obj_id"])):
                 raise ValueError(
                     "Did not find expected match between obj_ids provided and ephemeride obj_ids."
                 )
+        # Now find ephemeris values.
+        ephemerides["time"] = np.zeros((len(ephemerides["obj_id"]), ntimes), float) + times
+        for k in self.ephemeris_keys:
+            ephemerides[k] = np.full((len(ephemerides["obj_id"]), ntimes), np.nan)
+        for i, obj_id in enumerate(ephemerides["obj_id"]):
+            obj_match = self.coeffs["obj_id"] == obj_id
+            t_start = self.coeffs["t_start"][obj_match]
+            t_end = self.coeffs["t_end"][obj_match]
+            for it, t in enumerate(times):
+                # Find the segment of this object which contains the time.
+                # Look for simplest subset first.
+                segments = np.where((t_start <= t) & (t_end > t))[0]
+                if len(segments) == 0:
+                    if t == t_end.max() or (t > t_end.max() and extrapolate):
+                        segments = np.where(t_end == t_end.max())[0]
+                    elif t < t_start.min() and extrapolate:
+                        segments = np.where(t_start == t_start.min())[0]
+                for segment_idx in segments[:1]:
+                    ephemeris = self._eval_segment(segment_idx, t, obj_match, mask=False)
+                    for k in self.ephemeris_keys:
+                        ephemerides[k][i][it] = ephemeris[k]
         return ephemerides
-- 
2.43.0


From acbc2b977553d5a2e71f0eeef9980bfc509db9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:23 +0000
Subject: [PATCH 113/150] fix: ChebyFits.write can append

---
 rubin_sim/moving_objects/cheby_fits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/cheby_fits.py b/rubin_sim/moving_objects/cheby_fits.py
index a056d31..6814d45 100644
--- a/rubin_sim/moving_objects/cheby_fits.py
+++ b/rubin_sim/moving_objects/cheby_fits.py
@@ -605,7 +605,7 @@ class ChebyFits:
         )
 
         if append:
-            open_mode = "aw"
+            open_mode = "a"
         else:
             open_mode = "w"
         # Write a header to the coefficients file, if writing to a new file:
-- 
2.43.0


From e967448df58516c352519500a01c2724d6bd2999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:29 +0000
Subject: [PATCH 114/150] fix: ChebyFits records the objects which could not be
 fit

---
 rubin_sim/moving_objects/cheby_fits.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/moving_objects/cheby_fits.py b/rubin_sim/moving_objects/cheby_fits.py
index 6814d45..b189d5a 100644
--- a/rubin_sim/moving_objects/cheby_fits.py
+++ b/rubin_sim/moving_objects/cheby_fits.py
@@ -276,7 +276,7 @@ class ChebyFits:
             counter += 1
         if (self.t_span % length) > num_tolerance or (length <= 0):
             # Add this entire segment into the failed list.
-            for obj_id in self.orbits_obj.orbits["obj_id"].as_matrix():
+            for obj_id in self.orbits_obj.orbits["obj_id"].values:
                 self.failed.append((obj_id, self.t_start, self.t_end))
             raise ValueError(
                 "Could not find a suitable length for the timespan (start %f, span %f), "
@@ -380,7 +380,7 @@ class ChebyFits:
             counter += 1
         if counter > max_iterations or length <= 0:
             # Add this entire segment into the failed list.
-            for obj_id in self.orbits_obj.orbits["obj_id"].as_matrix():
+            for obj_id in self.orbits_obj.orbits["obj_id"].values:
                 self.failed.append((obj_id, self.t_start, self.t_end))
             error_message = "Could not find good segment length to meet skyTolerance %f" % (
                 self.sky_tolerance
@@ -517,7 +517,7 @@ class ChebyFits:
                     "Fit failed for orbit_obj %s for times between %f and %f"
                     % (obj_id, t_segment_start, t_segment_end)
                 )
-                self.failed.append((orbit_obj.orbits["obj_id"], t_segment_start, t_segment_end))
+                self.failed.append((obj_id, t_segment_start, t_segment_end))
             else:
                 # Consolidate items into the tracked coefficient values.
                 self.coeffs["obj_id"].append(obj_id)
-- 
2.43.0


From b64586fb976b5904a2d8decbd36361f9bca8e95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:29 +0000
Subject: [PATCH 115/150] fix: ChebyFits records the residuals of the V
 magnitude

---
 rubin_sim/moving_objects/cheby_fits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/cheby_fits.py b/rubin_sim/moving_objects/cheby_fits.py
index b189d5a..d487e90 100644
--- a/rubin_sim/moving_objects/cheby_fits.py
+++ b/rubin_sim/moving_objects/cheby_fits.py
@@ -534,7 +534,7 @@ class ChebyFits:
                 self.resids["t_end"].append(t_segment_end)
                 self.resids["pos"].append(max_pos_resid)
                 self.resids["geo_dist"].append(max_resids["geo_dist"])
-                self.resids["vmag"].append(max_resids["geo_dist"])
+                self.resids["vmag"].append(max_resids["vmag"])
                 self.resids["elongation"].append(max_resids["elongation"])
 
     def _subdivide_segment(self, orbit_obj, ephs):
-- 
2.43.0


From b58a1fd08e5c571c47d3e1708445822c24588106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:29 +0000
Subject: [PATCH 116/150] fix: ChebyFits does not keep segments without valid
 positions

---
 rubin_sim/moving_objects/cheby_fits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/cheby_fits.py b/rubin_sim/moving_objects/cheby_fits.py
index d487e90..a04b0b4 100644
--- a/rubin_sim/moving_objects/cheby_fits.py
+++ b/rubin_sim/moving_objects/cheby_fits.py
@@ -508,7 +508,8 @@ class ChebyFits:
             self._subdivide_segment(orbit_obj, ephs)
         else:
             coeffs, max_resids = self._get_coeffs_other(ephs)
-            fit_failed = False
+            # Residuals are NaN if ephemeris values were not available.
+            fit_failed = bool(np.isnan(max_pos_resid))
             for k in max_resids:
                 if np.isnan(max_resids[k]):
                     fit_failed = True
-- 
2.43.0


From e044819224d3cb7cad149e4b57c62c3cd2c3711f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:40 +0000
Subject: [PATCH 117/150] fix: ChebyFits segments include their first ephemeris
 point

---
 rubin_sim/moving_objects/cheby_fits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/cheby_fits.py b/rubin_sim/moving_objects/cheby_fits.py
index a04b0b4..4dd4141 100644
--- a/rubin_sim/moving_objects/cheby_fits.py
+++ b/rubin_sim/moving_objects/cheby_fits.py
@@ -480,7 +480,7 @@ class ChebyFits:
                 # which are relevant for this segment
                 # (at the default segment size).
                 t_segment_end = round(t_segment_start + self.length, self.n_decimal)
-                subset = np.where((times >= t_segment_start) & (times < t_segment_end + eps))
+                subset = np.where((times > t_segment_start - eps) & (times < t_segment_end + eps))
                 self.calc_one_segment(orbit_obj, e[subset])
                 t_segment_start = t_segment_end
 
-- 
2.43.0


From c3a7f4a1fd2ef5aa6a254526b9dbbc84ddb563d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:40 +0000
Subject: [PATCH 118/150] fix: ChebyFits segment lengths fit into the time span
 for any n_decimal

---
 rubin_sim/moving_objects/cheby_fits.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/moving_objects/cheby_fits.py b/rubin_sim/moving_objects/cheby_fits.py
index 4dd4141..4ae241a 100644
--- a/rubin_sim/moving_objects/cheby_fits.py
+++ b/rubin_sim/moving_objects/cheby_fits.py
@@ -246,6 +246,14 @@ class ChebyFits:
             by_object=by_object,
         )
 
+    def _fits_span(self, length):
+        """Check if an integer number of segments of `length` cover t_span
+        (to last decimal place accuracy, and within a small fraction of
+        the length of a segment)."""
+        num_tolerance = min(10.0 ** (-1 * (self.n_decimal - 1)), 1e-6 * length)
+        remainder = self.t_span % length
+        return min(remainder, length - remainder) <= num_tolerance
+
     def _round_length(self, length):
         """Modify length, to fit in an 'integer multiple' within the
         t_start/t_end, and to have the desired number of decimal values.
@@ -266,15 +274,14 @@ class ChebyFits:
         # to last decimal place accuracy.
         counter = 0
         prev_int_factor = 0
-        num_tolerance = 10.0 ** (-1 * (self.n_decimal - 1))
-        while ((self.t_span % length) > num_tolerance) and (length > 0) and (counter < 20):
+        while (length > 0) and (not self._fits_span(length)) and (counter < 20):
             int_factor = int(self.t_span / length) + 1  # round up / ceiling
             if int_factor == prev_int_factor:
                 int_factor = prev_int_factor + 1
             prev_int_factor = int_factor
             length = round(self.t_span / int_factor, self.n_decimal)
             counter += 1
-        if (self.t_span % length) > num_tolerance or (length <= 0):
+        if (length <= 0) or (not self._fits_span(length)):
             # Add this entire segment into the failed list.
             for obj_id in self.orbits_obj.orbits["obj_id"].values:
                 self.failed.append((obj_id, self.t_start, self.t_end))
-- 
2.43.0


From e9c1c0ad1977baf8b5b97f6fc6c4542d6ca66dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:33 +0000
Subject: [PATCH 119/150] fix: PyOrbEphemerides reports errors from basic
 ephemerides

---
 rubin_sim/moving_objects/ooephemerides.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/rubin_sim/moving_objects/ooephemerides.py b/rubin_sim/moving_objects/ooephemerides.py
index 8cbb6d7..53a786f 100644
--- a/rubin_sim/moving_objects/ooephemerides.py
+++ b/rubin_sim/moving_objects/ooephemerides.py
@@ -600,12 +600,7 @@ class PyOrbEphemerides:
         # t = time.time()
         eph_times = self._convert_times(times, time_scale=time_scale)
         if eph_type.lower() == "basic":
-            oorb_ephs, err = oo.pyoorb.oorb_ephemeris_basic(
-                in_orbits=self.oorb_elem,
-                in_obscode=obscode,
-                in_date_ephems=eph_times,
-                in_dynmodel=eph_mode,
-            )
+            oorb_ephs = self._generate_oorb_ephs_basic(eph_times, obscode=obscode, eph_mode=eph_mode)
             ephs = self._convert_oorb_ephs_basic(oorb_ephs, by_object=by_object)
         elif eph_type.lower() == "full":
             oorb_ephs = self._generate_oorb_ephs_full(eph_times, obscode=obscode, eph_mode=eph_mode)
-- 
2.43.0


From b18d924cd8ac7515a1f3fcf0ed44f2a53a19848a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:33 +0000
Subject: [PATCH 120/150] fix: Orbits compare all of their elements

---
 rubin_sim/moving_objects/orbits.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index e33f0bf..7aae021 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -80,15 +80,16 @@ class Orbits:
         if isinstance(other_orbits, Orbits):
             if self.orb_format != other_orbits.orb_format:
                 return False
+            if len(self) != len(other_orbits):
+                return False
             for col in self.data_cols[self.orb_format]:
                 if not np.all(self.orbits[col].values == other_orbits.orbits[col].values):
                     return False
-                else:
-                    return True
+            return True
         else:
             return False
 
-    def __neq__(self, other_orbits):
+    def __ne__(self, other_orbits):
         if self == other_orbits:
             return False
         else:
-- 
2.43.0


From 1b110c64076b004563b6153d639e0eba55747367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:33 +0000
Subject: [PATCH 121/150] fix: Orbits.set_orbits does not change the dataframe
 it is given

---
 rubin_sim/moving_objects/orbits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index 7aae021..2ddc2c4 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -127,7 +127,8 @@ class Orbits:
         elif isinstance(orbits, pd.DataFrame):
             # This was a pandas dataframe ..
             # but we probably want to drop the index and recount.
-            orbits.reset_index(drop=True, inplace=True)
+            # (without changing the dataframe we were passed).
+            orbits = orbits.reset_index(drop=True)
 
         if "index" in orbits:
             del orbits["index"]
-- 
2.43.0


From bfa2663fef90623998e18e76cdbdbcebe972559c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:33 +0000
Subject: [PATCH 122/150] fix: Orbits.read_orbits recognizes S3MID and
 objid(int) identifiers

---
 rubin_sim/moving_objects/orbits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index 2ddc2c4..a6c20bc 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -431,7 +431,8 @@ class Orbits:
             "!!OID",
             "!!S3MID",
             "OID",
-            "S3MID" "objid(int)",
+            "S3MID",
+            "objid(int)",
             "full_name",
             "#name",
         ]
-- 
2.43.0


From 12aec1d3912577633c8d3e1eb2bae0b041fed835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:33 +0000
Subject: [PATCH 123/150] fix: Orbits.read_orbits refuses negative inclinations

---
 rubin_sim/moving_objects/orbits.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index a6c20bc..993e13e 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -485,8 +485,12 @@ class Orbits:
         if "inc" in orbits.keys():
             if np.min(orbits["inc"]) < 0:
                 negative_incs = np.where(orbits["inc"].values < 0)[0]
-                negative_ids = orbits["obj_id"].values[negative_incs]
-                ValueError("Negative orbital inclinations not supported. Problem obj_ids=%s" % negative_ids)
+                negative_ids = negative_incs
+                if "obj_id" in orbits.keys():
+                    negative_ids = orbits["obj_id"].values[negative_incs]
+                raise ValueError(
+                    "Negative orbital inclinations not supported. Problem obj_ids=%s" % negative_ids
+                )
 
         # Validate and assign orbits to self.
         self.set_orbits(orbits)
-- 
2.43.0


From dddafadb3549fb05dc9bbb45928f2871e60d37da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:33 +0000
Subject: [PATCH 124/150] fix: Orbits.update_orbits matches objects by position

---
 rubin_sim/moving_objects/orbits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index 993e13e..5aec85d 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -510,5 +510,7 @@ class Orbits:
         """
         col_orig = ["obj_id", "sed_filename"]
         new_order = ["obj_id"] + [n for n in neworb.columns] + ["sed_filename"]
-        updated_orbits = neworb.join(self.orbits[col_orig])[new_order]
+        # Match by position, whatever the row labels are.
+        orig = self.orbits[col_orig].reset_index(drop=True)
+        updated_orbits = neworb.reset_index(drop=True).join(orig)[new_order]
         self.set_orbits(updated_orbits)
-- 
2.43.0


From 92e954ec940ca0ae1d5af00d63ce2037592f3ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:33 +0000
Subject: [PATCH 125/150] fix: Orbits.read_orbits finds the header of files
 with other delimiters

---
 rubin_sim/moving_objects/orbits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index 5aec85d..7194ac6 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -308,7 +308,7 @@ class Orbits:
             with open(orbit_file, "r") as fp:
                 headervalues = None
                 for line in fp:
-                    values = line.split()
+                    values = [v.strip() for v in line.split(delim)]
                     try:
                         # If it is a valid orbit line,
                         # we expect column 3 to be a number.
-- 
2.43.0


From 54b7e665460c884791914eaf78d350b4ff954aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:56 +0000
Subject: [PATCH 126/150] fix: Orbits.set_orbits accepts a single record with
 any order of columns

---
 rubin_sim/moving_objects/orbits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index 7194ac6..217f085 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -123,7 +123,7 @@ class Orbits:
             orbits = pd.DataFrame.from_records(orbits)
         elif isinstance(orbits, np.record):
             # This was a single object in a numpy array
-            orbits = pd.DataFrame.from_records([orbits], columns=orbits.dtype.names)
+            orbits = pd.DataFrame.from_records(np.array([orbits], dtype=orbits.dtype))
         elif isinstance(orbits, pd.DataFrame):
             # This was a pandas dataframe ..
             # but we probably want to drop the index and recount.
-- 
2.43.0


From af3433b3f378235380ef3a8bc624776a00553ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:56 +0000
Subject: [PATCH 127/150] fix: subsets of Orbits keep the orbital format

---
 rubin_sim/moving_objects/orbits.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index 217f085..b430876 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -66,15 +66,19 @@ class Orbits:
         return len(self.orbits)
 
     def __getitem__(self, i):
-        orb = Orbits()
-        orb.set_orbits(self.orbits.iloc[i])
-        return orb
+        return self._subset(self.orbits.iloc[i])
 
     def __iter__(self):
         for i, orbit in self.orbits.iterrows():
-            orb = Orbits()
-            orb.set_orbits(orbit)
-            yield orb
+            yield self._subset(orbit)
+
+    def _subset(self, orbits):
+        """An Orbits object with the same format, for some of the orbits."""
+        orbits = orbits.copy()
+        orbits["FORMAT"] = self.orb_format
+        orb = Orbits()
+        orb.set_orbits(orbits)
+        return orb
 
     def __eq__(self, other_orbits):
         if isinstance(other_orbits, Orbits):
-- 
2.43.0


From 2b739316364dc4c3ecc5b8146e133ebbf3a249c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:39 +0000
Subject: [PATCH 128/150] fix: LsqrSolver does not reorder the observations it
 is given

---
 rubin_sim/selfcal/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/selfcal/solver.py b/rubin_sim/selfcal/solver.py
index 5d770c9..b2946cb 100644
--- a/rubin_sim/selfcal/solver.py
+++ b/rubin_sim/selfcal/solver.py
@@ -55,7 +55,8 @@ class LsqrSolver:
         n_end = 0.0
         while n_start != n_end:
             n_start = self.observations.size
-            self.observations.sort(order="id")
+            # (sorted copy, to leave the input observations unchanged).
+            self.observations = np.sort(self.observations, order="id")
             # Remove observations if the star was only observed once
             good = np.where(
                 (self.observations["id"] - np.roll(self.observations["id"], 1))
-- 
2.43.0


From 91a0e6f9c1ea5dcbfd211fafe1bb8bcacc3c88b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:39 +0000
Subject: [PATCH 129/150] fix: NoOffset can be applied to stars

---
 rubin_sim/selfcal/offsets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/selfcal/offsets.py b/rubin_sim/selfcal/offsets.py
index 3ebc040..feb732d 100644
--- a/rubin_sim/selfcal/offsets.py
+++ b/rubin_sim/selfcal/offsets.py
@@ -24,7 +24,7 @@ class NoOffset(BaseOffset):
         self.newkey = "dmag_zero"
 
     def __call__(self, stars, visits, **kwargs):
-        dmag = np.zeros(stars.size, dtype=list(zip([self.newkey], [float])))
+        dmag = np.zeros(stars.size)
         return dmag
 
 
-- 
2.43.0


From cc3601aaaaa44c294afe01ef9c2d12d7e1225ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:21 +0000
Subject: [PATCH 130/150] fix: rubin_sim.selfcal can be imported on its own

---
 rubin_sim/selfcal/offsets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/selfcal/offsets.py b/rubin_sim/selfcal/offsets.py
index feb732d..97ce215 100644
--- a/rubin_sim/selfcal/offsets.py
+++ b/rubin_sim/selfcal/offsets.py
@@ -2,8 +2,6 @@ __all__ = ["NoOffset", "OffsetSNR", "BaseOffset"]
 
 import numpy as np
 
-from ..maf.utils.astrometry_utils import m52snr
-
 # from lsst.sims.selfcal.clouds.Arma import ArmaSf, Clouds
 
 
@@ -97,6 +95,9 @@ class OffsetSNR(BaseOffset):
 
     def calc_mag_errors(self, magnitudes, m5, err_only=False):
         """ """
+        # Imported here because maf itself uses selfcal.
+        from ..maf.utils.astrometry_utils import m52snr
+
         snr = m52snr(magnitudes, m5)
         # via good old https://www.eso.org/~ohainaut/ccd/sn.html
         magnitude_errors = 2.5 * np.log10(1.0 + 1.0 / snr)
-- 
2.43.0


From d6530c8b617ab342417f6c7b2181a292cb08558a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:13 +0000
Subject: [PATCH 131/150] fix: LsqrSolver removes a single remaining
 observation

---
 rubin_sim/selfcal/solver.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/rubin_sim/selfcal/solver.py b/rubin_sim/selfcal/solver.py
index b2946cb..d8af672 100644
--- a/rubin_sim/selfcal/solver.py
+++ b/rubin_sim/selfcal/solver.py
@@ -46,6 +46,12 @@ class LsqrSolver:
         self.clean_data()
         self.solve_matrix()
 
+    @staticmethod
+    def _repeated(values):
+        """Indices of the values which occur more than once."""
+        _, inverse, counts = np.unique(values, return_inverse=True, return_counts=True)
+        return np.where(counts[inverse] > 1)
+
     def clean_data(self):
         """
         Remove observations that can't contribute to a solution.
@@ -58,21 +64,13 @@ class LsqrSolver:
             # (sorted copy, to leave the input observations unchanged).
             self.observations = np.sort(self.observations, order="id")
             # Remove observations if the star was only observed once
-            good = np.where(
-                (self.observations["id"] - np.roll(self.observations["id"], 1))
-                * (self.observations["id"] - np.roll(self.observations["id"], -1))
-                == 0
-            )
+            good = self._repeated(self.observations["id"])
             self.observations = self.observations[good]
 
             # Remove patches with only one star
             self.observations.sort(order="patch_id")
 
-            good = np.where(
-                (self.observations["patch_id"] - np.roll(self.observations["patch_id"], 1))
-                * (self.observations["patch_id"] - np.roll(self.observations["patch_id"], -1))
-                == 0
-            )
+            good = self._repeated(self.observations["patch_id"])
             self.observations = self.observations[good]
             n_end = self.observations.size
 
-- 
2.43.0


From c9eab86fc9084e90056ce3d5712b2f57ef614a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:51 +0000
Subject: [PATCH 132/150] fix: generate_catalog divides the requested field of
 view into patches

---
 rubin_sim/selfcal/generate_catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/selfcal/generate_catalog.py b/rubin_sim/selfcal/generate_catalog.py
index 31cb710..574d40c 100644
--- a/rubin_sim/selfcal/generate_catalog.py
+++ b/rubin_sim/selfcal/generate_catalog.py
@@ -151,7 +151,7 @@ def generate_catalog(
         stars_in = stars_project(stars_in, visit)
 
         # Assign patchIDs
-        stars_in = assign_patches(stars_in, visit, n_patches=n_patches)
+        stars_in = assign_patches(stars_in, visit, n_patches=n_patches, radius_fov=radius_fov)
 
         # Apply the offsets that have been configured
         for offset in offsets:
-- 
2.43.0


From 8374c736f0306af562b24ff6f1acdd12b4156dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:07 +0000
Subject: [PATCH 133/150] fix: get_oorb_data_dir warns when the data files
 cannot be found

---
 rubin_sim/moving_objects/ooephemerides.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/ooephemerides.py b/rubin_sim/moving_objects/ooephemerides.py
index 53a786f..59c8192 100644
--- a/rubin_sim/moving_objects/ooephemerides.py
+++ b/rubin_sim/moving_objects/ooephemerides.py
@@ -31,7 +31,8 @@ def get_oorb_data_dir():
             data_path = os.path.join(conda_dir, "share/openorb")
             if not os.path.isdir(data_path):
                 data_path = None
-        os.environ["OORB_DATA"] = data_path
+        if data_path is not None:
+            os.environ["OORB_DATA"] = data_path
     if data_path is None:
         warnings.warn(
             "Failed to find path for oorb data files. "
-- 
2.43.0


From 24c4c8c3cd40df54119bc7519032001d49e4cdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:04 +0000
Subject: [PATCH 134/150] fix: DirectObs can use full ephemerides

---
 rubin_sim/moving_objects/direct_obs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/direct_obs.py b/rubin_sim/moving_objects/direct_obs.py
index db3040f..8b1d6e7 100644
--- a/rubin_sim/moving_objects/direct_obs.py
+++ b/rubin_sim/moving_objects/direct_obs.py
@@ -338,7 +338,9 @@ class DirectObs(BaseObs):
                             100.0 * float(len(idx_obs)) / len(times),
                         )
                     )
-                object_observations = np.zeros(idx_obs.size, dtype=output_dtype)
+                # Full ephemerides have additional columns.
+                extra_dtype = [(key, float) for key in ephs.dtype.names if key not in names]
+                object_observations = np.zeros(idx_obs.size, dtype=output_dtype + extra_dtype)
                 object_observations["obj_id"] = objid
                 object_observations[self.obs_id_col] = obs_data[rough_idx_obs][idx_obs][self.obs_id_col]
                 object_observations["sedname"] = sedname
-- 
2.43.0


From e0007470313a9c99f624458e665440d3b8184f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:04 +0000
Subject: [PATCH 135/150] fix: DirectObs accepts string identifiers of objects

---
 rubin_sim/moving_objects/direct_obs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/direct_obs.py b/rubin_sim/moving_objects/direct_obs.py
index 8b1d6e7..f73cd1c 100644
--- a/rubin_sim/moving_objects/direct_obs.py
+++ b/rubin_sim/moving_objects/direct_obs.py
@@ -232,7 +232,9 @@ class DirectObs(BaseObs):
             "dmag_trail",
             "dmag_detect",
         ]
-        types = [int, int, "<U40"] + [float] * (len(names) - 3)
+        # Object identifiers can be integers or strings.
+        objid_type = np.array(orbits.orbits["obj_id"].tolist()).dtype
+        types = [objid_type, int, "<U40"] + [float] * (len(names) - 3)
 
         # XXX--for now, copy over some observation info. In the future,
         # just index it to the observations and only transfer observationId
-- 
2.43.0


From e9c8d4d1328bfba1cb7be15419e530f7ec368a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:04 +0000
Subject: [PATCH 136/150] fix: rectangular fields of view work across RA 0 and
 in radians

---
 rubin_sim/moving_objects/base_obs.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/moving_objects/base_obs.py b/rubin_sim/moving_objects/base_obs.py
index 0e2ae63..01f4ee7 100644
--- a/rubin_sim/moving_objects/base_obs.py
+++ b/rubin_sim/moving_objects/base_obs.py
@@ -395,8 +395,16 @@ class BaseObs:
         return self._sso_in_rectangle_fov(ephems, obs_data, self.x_tol, self.y_tol)
 
     def _sso_in_rectangle_fov(self, ephems, obs_data, x_tol, y_tol):
-        delta_dec = np.abs(ephems["dec"] - obs_data[self.obs_dec])
-        delta_ra = np.abs((ephems["ra"] - obs_data[self.obs_ra]) * np.cos(np.radians(obs_data[self.obs_dec])))
+        if not self.obs_degrees:
+            obs_ra = np.degrees(obs_data[self.obs_ra])
+            obs_dec = np.degrees(obs_data[self.obs_dec])
+        else:
+            obs_ra = obs_data[self.obs_ra]
+            obs_dec = obs_data[self.obs_dec]
+        delta_dec = np.abs(ephems["dec"] - obs_dec)
+        # Difference in RA, across 0/360 degrees as well.
+        delta_ra = (ephems["ra"] - obs_ra + 180.0) % 360.0 - 180.0
+        delta_ra = np.abs(delta_ra * np.cos(np.radians(obs_dec)))
         idx_obs = np.where((delta_dec <= y_tol) & (delta_ra <= x_tol))[0]
         return idx_obs
 
-- 
2.43.0


From 2bf5d89b451564e9be4c76864e6cd60c7146b7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:50 +0000
Subject: [PATCH 137/150] fix: objects can be matched with a single visit

---
 rubin_sim/moving_objects/base_obs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/base_obs.py b/rubin_sim/moving_objects/base_obs.py
index 01f4ee7..e8b0f6b 100644
--- a/rubin_sim/moving_objects/base_obs.py
+++ b/rubin_sim/moving_objects/base_obs.py
@@ -371,7 +371,8 @@ class BaseObs:
                 obs_data[self.obs_ra],
                 obs_data[self.obs_dec],
             )
-        idx_obs = np.where(sep <= r_fov)[0]
+        # (the separation of a single visit is a scalar).
+        idx_obs = np.where(np.atleast_1d(sep <= r_fov))[0]
         return idx_obs
 
     def sso_in_rectangle_fov(self, ephems, obs_data):
-- 
2.43.0


From c3eb249075283ed9b3baf1506496272b21147955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:40 +0000
Subject: [PATCH 138/150] fix: do not modify the metadata given to
 make_sim_data_dir

---
 rubin_sim/sim_archive/sim_archive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index 4aadb32..1981666 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -149,8 +149,8 @@ def make_sim_data_dir(
         assert isinstance(evening_local_iso, str)
         return evening_local_iso
 
-    if opsim_metadata is None:
-        opsim_metadata = {}
+    # Do not change the caller's dictionary, which may be reused.
+    opsim_metadata = {} if opsim_metadata is None else dict(opsim_metadata)
 
     opsim_metadata["scheduler_version"] = rubin_scheduler.__version__
     opsim_metadata["host"] = socket.getfqdn()
-- 
2.43.0


From fda8e36816f11657f6c73a65e9d99e3dc4ef7c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:40 +0000
Subject: [PATCH 139/150] fix: files with the same name do not overwrite each
 other in a simulation directory

---
 rubin_sim/sim_archive/sim_archive.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index 1981666..aa90da2 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -128,7 +128,16 @@ def make_sim_data_dir(
 
     # Add supplied files
     for file_type, fname in in_files.items():
-        files[file_type] = {"name": Path(fname).name}
+        # Files of different types must not overwrite each other.
+        used_names = {f["name"] for f in files.values()} | {"sim_metadata.yaml"}
+        name = Path(fname).name
+        if name in used_names:
+            name = f"{Path(file_type).name}_{name}"
+        serial = 1
+        while name in used_names:
+            serial += 1
+            name = f"{Path(file_type).name}_{serial}_{Path(fname).name}"
+        files[file_type] = {"name": name}
         try:
             shutil.copyfile(fname, data_path.joinpath(files[file_type]["name"]))
         except shutil.SameFileError:
-- 
2.43.0


From 5e0263eed69ad866ac626d6959e1d26fea9358d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:40 +0000
Subject: [PATCH 140/150] fix: do not add visits to those of a simulation saved
 before in the same directory

---
 rubin_sim/sim_archive/sim_archive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index aa90da2..1db325c 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -109,7 +109,7 @@ def make_sim_data_dir(
     # Save the observations
     files["observations"] = {"name": "opsim.db"}
     opsim_output_fname = data_path.joinpath(files["observations"]["name"])
-    SchemaConverter().obs2opsim(observations, filename=opsim_output_fname)
+    SchemaConverter().obs2opsim(observations, filename=opsim_output_fname, delete_past=True)
 
     # Save the rewards
     if reward_df is not None and obs_rewards is not None:
-- 
2.43.0


From cba4fd84b04649eb8912b3a29977d4531e896a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:40 +0000
Subject: [PATCH 141/150] fix: save either table of rewards when the other is
 absent

---
 rubin_sim/sim_archive/sim_archive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index 1db325c..42b876d 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -112,9 +112,10 @@ def make_sim_data_dir(
     SchemaConverter().obs2opsim(observations, filename=opsim_output_fname, delete_past=True)
 
     # Save the rewards
-    if reward_df is not None and obs_rewards is not None:
+    if reward_df is not None or obs_rewards is not None:
         files["rewards"] = {"name": "rewards.h5"}
         rewards_fname = data_path.joinpath(files["rewards"]["name"])
+        rewards_fname.unlink(missing_ok=True)
         if reward_df is not None:
             reward_df.to_hdf(rewards_fname, key="reward_df")
         if obs_rewards is not None:
-- 
2.43.0


From 590860ef3b8c7c258a46417440851f8a934d63c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:40 +0000
Subject: [PATCH 142/150] fix: drive_sim returns a directory which exists

---
 rubin_sim/sim_archive/sim_archive.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index 42b876d..0417301 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -20,7 +20,7 @@ import socket
 from datetime import date, datetime, timedelta
 from numbers import Integral, Number
 from pathlib import Path
-from tempfile import TemporaryDirectory
+from tempfile import TemporaryDirectory, mkdtemp
 from typing import Any, Optional, Sequence, cast
 from zoneinfo import ZoneInfo
 
@@ -326,9 +326,11 @@ def drive_sim(
             tags=tags,
             label=label,
             opsim_metadata=opsim_metadata,
+            # The directory must outlast this function.
+            data_path=mkdtemp(),
         )
 
-        resource_path = ResourcePath(data_dir.name, forceDirctory=True)  # type: ignore
+        resource_path = ResourcePath(str(data_dir), forceDirectory=True)
 
     results = sim_results + (resource_path,)
     return results
-- 
2.43.0


From 8764ce9ecb1cc9412a51933f963960d6bda0f5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:40 +0000
Subject: [PATCH 143/150] fix: the last night of a simulation is not before the
 first

---
 rubin_sim/sim_archive/sim_archive.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index 0417301..fa311c4 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -171,8 +171,10 @@ def make_sim_data_dir(
         simulation_dates["first"] = convert_mjd_to_dayobs(sim_runner_kwargs["sim_start_mjd"])
 
         if "sim_duration" in sim_runner_kwargs:
+            # A fraction of a day is another night.
+            num_nights = max(np.ceil(sim_runner_kwargs["sim_duration"]), 1)
             simulation_dates["last"] = convert_mjd_to_dayobs(
-                sim_runner_kwargs["sim_start_mjd"] + sim_runner_kwargs["sim_duration"] - 1
+                sim_runner_kwargs["sim_start_mjd"] + num_nights - 1
             )
     else:
         simulation_dates["first"] = convert_mjd_to_dayobs(observations["mjd"].min())
-- 
2.43.0


From 761377d489346970d2ee7a94ed4912195e6f7e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:40 +0000
Subject: [PATCH 144/150] fix: a prenight simulation without a results
 directory is saved

---
 rubin_sim/sim_archive/prenight.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/prenight.py b/rubin_sim/sim_archive/prenight.py
index 0b0dbb8..52d99b6 100644
--- a/rubin_sim/sim_archive/prenight.py
+++ b/rubin_sim/sim_archive/prenight.py
@@ -9,6 +9,7 @@ import warnings
 from copy import deepcopy
 from datetime import date
 from pathlib import Path
+from tempfile import mkdtemp
 from typing import Any, Callable, Mapping, Protocol
 
 import numpy as np
@@ -306,7 +307,7 @@ def run_prenight_sim_cli(cli_args: list = []) -> int:
     anom_overhead_scale = args.anom_overhead_scale
     anom_overhead_scatter = args.anom_overhead_scatter
     anom_overhead_seed = args.anom_overhead_seed
-    results_dir = args.results if len(args.results) > 0 else None
+    results_dir = args.results if len(args.results) > 0 else mkdtemp()
 
     with open(args.scheduler, "rb") as scheduler_io:
         scheduler = pickle.load(scheduler_io)
@@ -360,7 +361,7 @@ def run_prenight_sim_cli(cli_args: list = []) -> int:
     output_dirname: str = "Unknown"
     if isinstance(data_path, Path):
         assert isinstance(data_path, Path)
-        output_dirname = data_path.name
+        output_dirname = str(data_path)
     else:
         assert isinstance(data_path, str)
         output_dirname = data_path
-- 
2.43.0


From 766eb7cd20a1630af50f132224aadfccbd7c9f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:40 +0000
Subject: [PATCH 145/150] fix: random overheads can be applied to simulated
 observations

---
 rubin_sim/sim_archive/prenight.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/rubin_sim/sim_archive/prenight.py b/rubin_sim/sim_archive/prenight.py
index 52d99b6..192f64b 100644
--- a/rubin_sim/sim_archive/prenight.py
+++ b/rubin_sim/sim_archive/prenight.py
@@ -187,17 +187,13 @@ class AnomalousOverheadFunc:
             # we are actually using slew time scattering, so
             # get the model slewtime.
             if slewtime is not None:
-                if isinstance(slewtime, np.ndarray):
-                    assert slewtime.shape == (1,)
-                    slewtime = float(slewtime.item())
-                assert isinstance(slewtime, float)
+                slewtime = np.asarray(slewtime, dtype=float).item()
                 warnings.warn(
                     "The visittime argument is deprecated and unused", DeprecationWarning, stacklevel=2
                 )
             else:
-                assert isinstance(obs, Mapping)
-                assert isinstance(obs["slewtime"], float)
-                slewtime = obs["slewtime"]
+                assert obs is not None, "The slew time is needed."
+                slewtime = np.asarray(obs["slewtime"], dtype=float).item()
 
             slew_overhead_offset = slewtime * self.rng.normal(self.slew_loc, self.slew_scale)
             # Slew might be faster than expected,
@@ -217,7 +213,9 @@ class AnomalousOverheadFunc:
         if obs is not None:
             needed_data_found: bool = False
             try:
-                model_overhead = obs["slewtime"] + obs["visittime"] - obs["exptime"]
+                model_overhead = np.asarray(
+                    obs["slewtime"] + obs["visittime"] - obs["exptime"], dtype=float
+                ).item()
                 needed_data_found = True
             except (KeyError, ValueError):
                 pass
-- 
2.43.0


From 5d1cdaa4fed0de33fcf3aa2916190b641826e3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:40 +0000
Subject: [PATCH 146/150] fix: the archive CLI records which file is the
 scheduler, script or notebook

---
 rubin_sim/sim_archive/prototype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/prototype.py b/rubin_sim/sim_archive/prototype.py
index 647fa57..ff151a6 100644
--- a/rubin_sim/sim_archive/prototype.py
+++ b/rubin_sim/sim_archive/prototype.py
@@ -391,7 +391,7 @@ def make_sim_archive_cli(*args: Any) -> str:
         try:
             filename = getattr(arg_values, filename_arg)
             if filename is not None:
-                in_files[filename] = filename
+                in_files[filename_arg] = filename
         except AttributeError:
             pass
 
-- 
2.43.0


From a017fbfd6e63565780a239e9c632c8f612480180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:30 +0000
Subject: [PATCH 147/150] fix: drive_sim works when the rewards the scheduler
 keeps are not recorded

---
 rubin_sim/sim_archive/sim_archive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index fa311c4..81b3363 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -316,8 +316,8 @@ def drive_sim(
         LOGGER.debug("sim_runner complete.")
 
         observations = sim_results[2]
-        reward_df = sim_results[3] if scheduler.keep_rewards else None
-        obs_rewards = sim_results[4] if scheduler.keep_rewards else None
+        reward_df = sim_results[3] if kwargs["record_rewards"] else None
+        obs_rewards = sim_results[4] if kwargs["record_rewards"] else None
 
         data_dir = make_sim_data_dir(
             observations,
-- 
2.43.0


From d64cc7c2b1410ead6c987403ec231febe3c43218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:14 +0000
Subject: [PATCH 148/150] fix: saving a set of summary statistics tries again
 when the results database is locked

---
 rubin_sim/maf/db/results_db.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/db/results_db.py b/rubin_sim/maf/db/results_db.py
index 61ba9a3..6cce676 100644
--- a/rubin_sim/maf/db/results_db.py
+++ b/rubin_sim/maf/db/results_db.py
@@ -11,12 +11,11 @@ import datetime
 import os
 import time
 import warnings
-from sqlite3 import OperationalError
 
 import numpy as np
 from sqlalchemy import Column, Float, ForeignKey, Integer, String, create_engine
 from sqlalchemy.engine import url
-from sqlalchemy.exc import DatabaseError
+from sqlalchemy.exc import DatabaseError, OperationalError
 from sqlalchemy.orm import backref, declarative_base, relationship, sessionmaker
 from sqlalchemy.sql import text
 
@@ -613,7 +612,11 @@ class ResultsDb:
                             self.session.commit()
                             success = True
                         except OperationalError:
+                            # Make the session usable again.
+                            self.session.rollback()
                             tries += 1
+                            if tries >= ntry:
+                                raise
                             time.sleep(pause_time)
             else:
                 warnings.warn("Warning! Cannot save non-conforming summary statistic.")
-- 
2.43.0


From 03ac975f614b4c1b95562f5c7e4992abcf0d5efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:50 +0000
Subject: [PATCH 149/150] fix: an update or downgrade of a results database is
 made completely or not at all

---
 rubin_sim/maf/db/results_db.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/rubin_sim/maf/db/results_db.py b/rubin_sim/maf/db/results_db.py
index 6cce676..062dd17 100644
--- a/rubin_sim/maf/db/results_db.py
+++ b/rubin_sim/maf/db/results_db.py
@@ -247,18 +247,19 @@ class ResultsDb:
         )
         query = text("select * from metrics limit 1")
         cols = self.session.execute(query)._metadata.keys
+        # Change everything or (if interrupted) nothing: sqlite would
+        # otherwise commit each of these statements on its own.
+        self.session.execute(text("begin"))
         if "metricMetadata" in cols:
             # if it's very old
             query = text("alter table metrics rename column metricMetadata to metric_info_label")
             self.session.execute(query)
-            self.session.commit()
         # Check for metricId vs. metric_id separately,
         # as this change happened independently.
         if "metricId" in cols:
             for table in ["metrics", "summarystats", "plots", "displays"]:
                 query = text(f"alter table {table} rename column metricId to metric_id")
                 self.session.execute(query)
-            self.session.commit()
         # Update to newest schema.
         if "run_name" not in cols:
             updates = {
@@ -275,7 +276,6 @@ class ResultsDb:
                     continue
                 query = text(f"alter table metrics rename column {old} to {new}")
                 self.session.execute(query)
-            self.session.commit()
             # update summarystat table
             updates = {
                 "statId": "stat_id",
@@ -285,7 +285,6 @@ class ResultsDb:
             for old, new in updates.items():
                 query = text(f"alter table summarystats rename column {old} to {new}")
                 self.session.execute(query)
-            self.session.commit()
             # update plot table
             updates = {
                 "plotId": "plot_id",
@@ -295,7 +294,6 @@ class ResultsDb:
             for old, new in updates.items():
                 query = text(f"alter table plots rename column {old} to {new}")
                 self.session.execute(query)
-            self.session.commit()
             # update display table
             updates = {
                 "displayId": "display_id",
@@ -307,7 +305,6 @@ class ResultsDb:
             for old, new in updates.items():
                 query = text(f"alter table displays rename column {old} to {new}")
                 self.session.execute(query)
-            self.session.commit()
             updates = {
                 "verId": "version_id",
                 "rundate": "run_date",
@@ -315,7 +312,7 @@ class ResultsDb:
             for old, new in updates.items():
                 query = text(f"alter table version rename column {old} to {new}")
                 self.session.execute(query)
-            self.session.commit()
+        self.session.commit()
 
     def downgrade_database(self):
         """
@@ -325,6 +322,8 @@ class ResultsDb:
         """
         self.open()
         warnings.warn("Downgrading MAF resultsDb to run with MAF < v1.0")
+        # Change everything or (if interrupted) nothing.
+        self.session.execute(text("begin"))
         updates = {
             "metricId": "metric_id",
             "metricName": "metric_name",
@@ -337,7 +336,6 @@ class ResultsDb:
         for old, new in updates.items():
             query = text(f"alter table metrics rename column {new} to {old}")
             self.session.execute(query)
-        self.session.commit()
         # update summarystat table
         updates = {
             "statId": "stat_id",
@@ -348,7 +346,6 @@ class ResultsDb:
         for old, new in updates.items():
             query = text(f"alter table summarystats rename column {new} to {old}")
             self.session.execute(query)
-        self.session.commit()
         # update plot table
         updates = {
             "plotId": "plot_id",
@@ -359,7 +356,6 @@ class ResultsDb:
         for old, new in updates.items():
             query = text(f"alter table plots rename column {new} to {old}")
             self.session.execute(query)
-        self.session.commit()
         # update display table
         updates = {
             "displayId": "display_id",
@@ -372,7 +368,6 @@ class ResultsDb:
         for old, new in updates.items():
             query = text(f"alter table displays rename column {new} to {old}")
             self.session.execute(query)
-        self.session.commit()
         updates = {
             "verId": "version_id",
             "rundate": "run_date",
-- 
2.43.0


From d7e993b7d9f8ae41d295cb31369e5d16558fae67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 150/150] fix: metadata of simulations with a flag that only
 some of them have can be compiled

---
 rubin_sim/sim_archive/prototype.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/prototype.py b/rubin_sim/sim_archive/prototype.py
index ff151a6..6bdc678 100644
--- a/rubin_sim/sim_archive/prototype.py
+++ b/rubin_sim/sim_archive/prototype.py
@@ -483,9 +483,12 @@ def compile_sim_metadata(
 
     with TemporaryDirectory() as local_data_dir:
         local_hdf_fname = Path(local_data_dir).joinpath("scheduler.pickle.xz")
-        sim_df.to_hdf(local_hdf_fname, key="simulations", format="table")
+        # Values of any type can be absent from some simulations, and the
+        # "table" format cannot hold such a mixture of types in a column.
+        sim_df.to_hdf(local_hdf_fname, key="simulations", format="fixed")
         file_df.to_hdf(local_hdf_fname, key="files", format="table")
-        sim_runner_kwargs_df.to_hdf(local_hdf_fname, key="kwargs", format="table")
+        if len(sim_runner_kwargs) > 0:
+            sim_runner_kwargs_df.to_hdf(local_hdf_fname, key="kwargs", format="fixed")
         tags_df.to_hdf(local_hdf_fname, key="tags", format="table")
 
         with open(local_hdf_fname, "rb") as local_hdf_io:
-- 
2.43.0

