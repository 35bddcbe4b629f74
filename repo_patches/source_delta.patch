From 1a0a15e0d2312730bc411fa4224fa75c03bedfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:10 +0000
Subject: [PATCH 01/18] fix: make errant replicas super_read_only as well

An old primary that comes back with errant transactions was left writable
because the errant check returned before super_read_only was set.
---
 clustering/operations.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/clustering/operations.go b/clustering/operations.go
index 37d50ce..43aee72 100644
--- a/clustering/operations.go
+++ b/clustering/operations.go
@@ -546,21 +546,6 @@ func (p *managerProcess) configureReplica(ctx context.Context, ss *StatusSet, in
 	st := ss.MySQLStatus[index]
 	op := ss.DBOps[index]
 
-	// for an errant replica, stop replication
-	if st.IsErrant {
-		if st.ReplicaStatus == nil {
-			return redo, e
-		}
-		if st.ReplicaStatus.ReplicaIORunning != "Yes" {
-			return redo, e
-		}
-		log.Info("stop replica IO thread due to an errant transaction", "instance", index)
-		if err := op.StopReplicaIOThread(ctx); err != nil {
-			return false, err
-		}
-		return true, nil
-	}
-
 	if !st.GlobalVariables.SuperReadOnly {
 		redo = true
 
@@ -576,6 +561,21 @@ func (p *managerProcess) configureReplica(ctx context.Context, ss *StatusSet, in
 		}
 	}
 
+	// for an errant replica, stop replication
+	if st.IsErrant {
+		if st.ReplicaStatus == nil {
+			return redo, e
+		}
+		if st.ReplicaStatus.ReplicaIORunning != "Yes" {
+			return redo, e
+		}
+		log.Info("stop replica IO thread due to an errant transaction", "instance", index)
+		if err := op.StopReplicaIOThread(ctx); err != nil {
+			return false, err
+		}
+		return true, nil
+	}
+
 	// clone and start replication for all non-errant replicas
 	if st.GlobalVariables.ExecutedGTID == "" && ss.ExecutedGTID != "" && st.ReplicaStatus == nil {
 		addr := ss.Pods[ss.Primary].Status.PodIP
-- 
2.43.0


From b60f2eefec94379ccf9de61d9550fcc660e595e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:18 +0000
Subject: [PATCH 02/18] fix: do not dereference missing pods in the clustering
 process

While a cluster is offline its pods do not exist and the entries of
StatusSet.Pods are nil.
---
 clustering/operations.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/clustering/operations.go b/clustering/operations.go
index 43aee72..baca6ba 100644
--- a/clustering/operations.go
+++ b/clustering/operations.go
@@ -354,6 +354,10 @@ func (p *managerProcess) addRoleLabel(ctx context.Context, ss *StatusSet, alive
 func (p *managerProcess) removeAnnPreventDelete(ctx context.Context, ss *StatusSet) error {
 	log := logFromContext(ctx)
 	for _, pod := range ss.Pods {
+		if pod == nil {
+			// the pod does not exist while the cluster is offline.
+			continue
+		}
 		if _, exists := pod.Annotations[constants.AnnPreventDelete]; exists {
 			newPod := pod.DeepCopy()
 			delete(newPod.Annotations, constants.AnnPreventDelete)
@@ -369,6 +373,10 @@ func (p *managerProcess) removeAnnPreventDelete(ctx context.Context, ss *StatusS
 func (p *managerProcess) addAnnPreventDelete(ctx context.Context, ss *StatusSet) error {
 	log := logFromContext(ctx)
 	ppod := ss.Pods[ss.Primary]
+	if ppod == nil {
+		// the pod does not exist while the cluster is offline.
+		return nil
+	}
 	newPod := ppod.DeepCopy()
 	if newPod.Annotations == nil {
 		newPod.Annotations = make(map[string]string)
-- 
2.43.0


From 9d7634b3ad972637aea3bd3a9a75d7bd33b34381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:09 +0000
Subject: [PATCH 03/18] fix: do not delete ConfigMaps of other clusters

The prefix of the slow log agent's ConfigMaps has no terminator, so that of
a cluster "foo" also matches those of a cluster "foo2" in the namespace.
---
 controllers/mysqlcluster_controller.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index 6cc67d2..9d7c1f8 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -571,7 +571,7 @@ func (r *MySQLClusterReconciler) reconcileV1FluentBitConfigMap(ctx context.Conte
 			return nil, err
 		}
 		for _, old := range cms.Items {
-			if strings.HasPrefix(old.Name, prefix) {
+			if strings.HasPrefix(old.Name, prefix) && metav1.IsControlledBy(&old, cluster) {
 				if err := r.Delete(ctx, &old); err != nil && !apierrors.IsNotFound(err) {
 					return nil, fmt.Errorf("failed to delete old configmap %s/%s: %w", old.Namespace, old.Name, err)
 				}
@@ -600,6 +600,10 @@ func (r *MySQLClusterReconciler) cleanupOldConfigMaps(ctx context.Context, clust
 		if !strings.HasPrefix(old.Name, namePrefix) || old.Name == currentName {
 			continue
 		}
+		// the prefix may match the name of a ConfigMap for another cluster
+		if !metav1.IsControlledBy(&old, cluster) {
+			continue
+		}
 		oldConfigCount++
 		log.Info("found old configmap", "configMapName", old.Name, "count", oldConfigCount, "created", old.CreationTimestamp.Time)
 		if oldConfigCount > r.MySQLConfigMapHistoryLimit-1 {
-- 
2.43.0


From fb7690cc198155619875eab29cdbb23dcbc2989b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:16 +0000
Subject: [PATCH 04/18] fix: ignore clusterIP and selector in service templates

As documented, these fields may not be customized.  WithSelector merges the
entries into those given in the template.
---
 controllers/mysqlcluster_controller.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index 9d7c1f8..4d03252 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -673,6 +673,9 @@ func (r *MySQLClusterReconciler) reconcileV1Service1(ctx context.Context, cluste
 
 		if tmpl.Spec != nil {
 			s := (*corev1ac.ServiceSpecApplyConfiguration)(tmpl.Spec)
+			// these fields may not be customized
+			s.ClusterIP = nil
+			s.Selector = nil
 			svc.WithSpec(s)
 		}
 	} else {
-- 
2.43.0


From 34d86747a01e60f84c8282f9abf9eec578c1e0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:58 +0000
Subject: [PATCH 05/18] fix: fail the restore command when the retries are
 exhausted

---
 cmd/moco-backup/cmd/restore.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/moco-backup/cmd/restore.go b/cmd/moco-backup/cmd/restore.go
index 5d305c5..5748b3c 100644
--- a/cmd/moco-backup/cmd/restore.go
+++ b/cmd/moco-backup/cmd/restore.go
@@ -28,8 +28,9 @@ USERS:             The target users to restore.  If USERS is empty, all users ar
 	Args: cobra.ExactArgs(8),
 	RunE: func(cmd *cobra.Command, args []string) error {
 		maxRetry := 3
+		var err error
 		for range maxRetry {
-			if err := runRestore(cmd, args); err != backup.ErrBadConnection {
+			if err = runRestore(cmd, args); err != backup.ErrBadConnection {
 				return err
 			}
 
@@ -37,7 +38,7 @@ USERS:             The target users to restore.  If USERS is empty, all users ar
 			time.Sleep(1 * time.Second)
 		}
 
-		return nil
+		return err
 	},
 }
 
-- 
2.43.0


From 46761f150612ea44ead3b456cf11830508012ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:58 +0000
Subject: [PATCH 06/18] fix: do not restore into an instance that did not
 become ready

---
 backup/restore.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/backup/restore.go b/backup/restore.go
index 9489f72..ae265c8 100644
--- a/backup/restore.go
+++ b/backup/restore.go
@@ -105,6 +105,9 @@ func (rm *RestoreManager) Restore(ctx context.Context) error {
 			break
 		}
 	}
+	if pod.Status.PodIP == "" {
+		return fmt.Errorf("timed out waiting for the IP address of pod %s/%s", rm.namespace, podName)
+	}
 
 	op, err := newOperator(pod.Status.PodIP, constants.MySQLPort, constants.AdminUser, rm.password, rm.threads)
 	if err != nil {
@@ -114,6 +117,7 @@ func (rm *RestoreManager) Restore(ctx context.Context) error {
 
 	// ping the database until it becomes ready
 	rm.log.Info("waiting for the mysqld to become ready", "name", podName)
+	ready := false
 	for range 600 {
 		select {
 		case <-time.After(1 * time.Second):
@@ -135,8 +139,12 @@ func (rm *RestoreManager) Restore(ctx context.Context) error {
 		if !st.SuperReadOnly {
 			continue
 		}
+		ready = true
 		break
 	}
+	if !ready {
+		return fmt.Errorf("timed out waiting for mysqld in pod %s/%s to become ready", rm.namespace, podName)
+	}
 
 	keys, err := rm.bucket.List(ctx, rm.keyPrefix)
 	if err != nil {
-- 
2.43.0


From 64c0bd47d0f0da29a7fde275f2fac2323d0ccd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:58 +0000
Subject: [PATCH 07/18] fix: do not apply the binlog of another backup when
 restoring

---
 backup/restore.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/backup/restore.go b/backup/restore.go
index ae265c8..b927fa4 100644
--- a/backup/restore.go
+++ b/backup/restore.go
@@ -243,6 +243,11 @@ func (rm *RestoreManager) FindNearestDump(keys []string) (string, string, time.T
 		}
 	}
 
+	// a binlog that follows the nearest dump belongs to a backup without a dump
+	if path.Dir(nearestDump) != path.Dir(nearestBinlog) {
+		nearestBinlog = ""
+	}
+
 	return nearestDump, nearestBinlog, nearest
 }
 
-- 
2.43.0


From 25481976cdee6d42dd16195d8442ddbd3a8a9f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:58 +0000
Subject: [PATCH 08/18] fix: do not lower the partition of a StatefulSet that
 has changed

---
 controllers/partition_controller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controllers/partition_controller.go b/controllers/partition_controller.go
index 17566ce..43f24b2 100644
--- a/controllers/partition_controller.go
+++ b/controllers/partition_controller.go
@@ -302,7 +302,7 @@ func (r *StatefulSetPartitionReconciler) patchNewPartition(ctx context.Context,
 		return nil
 	}
 
-	patch := client.MergeFrom(sts.DeepCopy())
+	patch := client.MergeFromWithOptions(sts.DeepCopy(), client.MergeFromWithOptimisticLock{})
 	sts.Spec.UpdateStrategy.RollingUpdate.Partition = &newPartition
 
 	if err := r.Patch(ctx, sts, patch); err != nil {
-- 
2.43.0


From b2027c896093d765604c0917cf170e8b9cb84453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:58 +0000
Subject: [PATCH 09/18] fix: sort pods by ordinal in the partition controller

---
 controllers/partition_controller.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/controllers/partition_controller.go b/controllers/partition_controller.go
index 43f24b2..0644ff6 100644
--- a/controllers/partition_controller.go
+++ b/controllers/partition_controller.go
@@ -191,12 +191,14 @@ func (r *StatefulSetPartitionReconciler) getSortedPodList(ctx context.Context, s
 		return nil, err
 	}
 
-	// NOTE: This sorts lexicographically by pod name, which works correctly
-	// as long as the number of replicas is less than 10. For 10+ replicas,
-	// the sort order would be incorrect (e.g. "-10" < "-2").
-	// If 10+ replicas are needed, this should be changed to sort by numeric ordinal.
+	// The pod names differ only in their ordinals, which have no leading zeros.
+	// So, shorter names have smaller ordinals.
 	sort.Slice(podList.Items, func(i, j int) bool {
-		return podList.Items[i].Name < podList.Items[j].Name
+		a, b := podList.Items[i].Name, podList.Items[j].Name
+		if len(a) != len(b) {
+			return len(a) < len(b)
+		}
+		return a < b
 	})
 
 	return podList, nil
-- 
2.43.0


From 7c52e6b9f2dec367055b0266ec6b5290ac01ca43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:58 +0000
Subject: [PATCH 10/18] fix: pause the clustering process whenever clustering
 is stopped

---
 controllers/mysqlcluster_controller.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index 4d03252..6e49132 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -1833,12 +1833,14 @@ func (r *MySQLClusterReconciler) clusteringStopV1(ctx context.Context, cluster *
 	log := crlog.FromContext(ctx)
 	orig := cluster.DeepCopy()
 
+	// The clustering process may be running even if the condition is already False,
+	// for example when the controller has been restarted in the meantime.
+	r.ClusterManager.Pause(types.NamespacedName{Namespace: cluster.Namespace, Name: cluster.Name})
+
 	if meta.IsStatusConditionFalse(cluster.Status.Conditions, mocov1beta2.ConditionClusteringActive) {
 		return nil
 	}
 
-	r.ClusterManager.Pause(types.NamespacedName{Namespace: cluster.Namespace, Name: cluster.Name})
-
 	for _, cond := range cluster.Status.Conditions {
 		if cond.Type == mocov1beta2.ConditionAvailable || cond.Type == mocov1beta2.ConditionHealthy {
 			cond.Status = metav1.ConditionUnknown
-- 
2.43.0


From d596fed1e3dc6aee159723b15d1eda004e7f68c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:58 +0000
Subject: [PATCH 11/18] fix: reserve all volume and init container names used
 by MOCO

---
 api/v1beta2/mysqlcluster_types.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/api/v1beta2/mysqlcluster_types.go b/api/v1beta2/mysqlcluster_types.go
index 42f5d91..ab1ec42 100644
--- a/api/v1beta2/mysqlcluster_types.go
+++ b/api/v1beta2/mysqlcluster_types.go
@@ -255,7 +255,7 @@ func (s MySQLClusterSpec) validateCreate() (admission.Warnings, field.ErrorList)
 		}
 
 		switch *container.Name {
-		case constants.InitContainerName:
+		case constants.InitContainerName, constants.CopyInitContainerName:
 			allErrs = append(allErrs, field.Invalid(pp.Index(i), container.Name, "reserved init container name"))
 		}
 	}
@@ -269,7 +269,8 @@ func (s MySQLClusterSpec) validateCreate() (admission.Warnings, field.ErrorList)
 		switch *vol.Name {
 		case constants.TmpVolumeName, constants.RunVolumeName, constants.VarLogVolumeName,
 			constants.MySQLConfVolumeName, constants.MySQLInitConfVolumeName,
-			constants.MySQLConfSecretVolumeName, constants.SlowQueryLogAgentConfigVolumeName:
+			constants.MySQLConfSecretVolumeName, constants.SlowQueryLogAgentConfigVolumeName,
+			constants.GRPCSecretVolumeName, constants.SharedVolumeName:
 
 			allErrs = append(allErrs, field.Invalid(pp.Index(i), vol.Name, "reserved volume name"))
 		}
-- 
2.43.0


From 2cf28bc546e83e0daf396b6f2b7d370b1c221b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:23 +0000
Subject: [PATCH 12/18] fix: reserve names across containers and init
 containers

---
 api/v1beta2/mysqlcluster_types.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/api/v1beta2/mysqlcluster_types.go b/api/v1beta2/mysqlcluster_types.go
index ab1ec42..60da07c 100644
--- a/api/v1beta2/mysqlcluster_types.go
+++ b/api/v1beta2/mysqlcluster_types.go
@@ -216,7 +216,8 @@ func (s MySQLClusterSpec) validateCreate() (admission.Warnings, field.ErrorList)
 		if *container.Name == constants.MysqldContainerName {
 			mysqldIndex = i
 		}
-		if *container.Name == constants.AgentContainerName {
+		switch *container.Name {
+		case constants.AgentContainerName, constants.InitContainerName, constants.CopyInitContainerName:
 			allErrs = append(allErrs, field.Forbidden(pp.Index(i), "reserved container name"))
 		}
 		if *container.Name == constants.SlowQueryLogAgentContainerName && !s.DisableSlowQueryLogContainer {
@@ -255,7 +256,14 @@ func (s MySQLClusterSpec) validateCreate() (admission.Warnings, field.ErrorList)
 		}
 
 		switch *container.Name {
-		case constants.InitContainerName, constants.CopyInitContainerName:
+		case constants.InitContainerName, constants.CopyInitContainerName, constants.AgentContainerName:
+			allErrs = append(allErrs, field.Invalid(pp.Index(i), container.Name, "reserved init container name"))
+		}
+		// Names must be unique among containers and init containers of a Pod.
+		if *container.Name == constants.SlowQueryLogAgentContainerName && !s.DisableSlowQueryLogContainer {
+			allErrs = append(allErrs, field.Invalid(pp.Index(i), container.Name, "reserved init container name"))
+		}
+		if *container.Name == constants.ExporterContainerName && len(s.Collectors) > 0 {
 			allErrs = append(allErrs, field.Invalid(pp.Index(i), container.Name, "reserved init container name"))
 		}
 	}
-- 
2.43.0


From 3d9384bdeb2d99775edad11dccbaa1da7d010a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:24 +0000
Subject: [PATCH 13/18] fix: do not relax the PDB when the backup CronJob
 cannot be read

An error other than NotFound while reading the backup CronJob was taken
for the absence of a running backup, which allowed evictions during it.
---
 controllers/mysqlcluster_controller.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index 6e49132..01987d4 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -1053,10 +1053,12 @@ func (r *MySQLClusterReconciler) reconcileV1PDB(ctx context.Context, cluster *mo
 	// check if backup cronjob is running
 	if cluster.Spec.BackupPolicyName != nil {
 		cj := &batchv1.CronJob{}
-		if err := r.Get(ctx, client.ObjectKey{Namespace: cluster.Namespace, Name: cluster.BackupCronJobName()}, cj); err == nil {
-			if cj.Status.Active != nil {
-				backupCronJobIsRunning = true
-			}
+		err := r.Get(ctx, client.ObjectKey{Namespace: cluster.Namespace, Name: cluster.BackupCronJobName()}, cj)
+		if err != nil && !apierrors.IsNotFound(err) {
+			return fmt.Errorf("failed to get CronJob %s/%s: %w", cluster.Namespace, cluster.BackupCronJobName(), err)
+		}
+		if err == nil && cj.Status.Active != nil {
+			backupCronJobIsRunning = true
 		}
 	}
 
-- 
2.43.0


From 1e5e7e35582a07d45ac97a47bc14a8d7b4a08af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:36 +0000
Subject: [PATCH 14/18] fix: reconcile the backup Role and RoleBinding even if
 the CronJob is up to date

---
 controllers/mysqlcluster_controller.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index 01987d4..6723304 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -1333,26 +1333,26 @@ func (r *MySQLClusterReconciler) reconcileV1BackupJob(ctx context.Context, clust
 
 	key := client.ObjectKey{Namespace: cluster.Namespace, Name: cronJobName}
 	orig, err := apply(ctx, r.Client, key, cronJob, batchv1ac.ExtractCronJob)
-	if err != nil {
-		if errors.Is(err, ErrApplyConfigurationNotChanged) {
-			return nil
-		}
+	if err != nil && !errors.Is(err, ErrApplyConfigurationNotChanged) {
 		return fmt.Errorf("failed to reconcile %s CronJob for backup: %w", cronJobName, err)
 	}
 
-	if debugController {
-		var updated batchv1.CronJob
+	// The Role and the RoleBinding need to be reconciled even if the CronJob is up to date.
+	if err == nil {
+		if debugController {
+			var updated batchv1.CronJob
 
-		if err := r.Get(ctx, client.ObjectKey{Namespace: cluster.Namespace, Name: cronJobName}, &updated); err != nil && !apierrors.IsNotFound(err) {
-			return fmt.Errorf("failed to get CronJob %s/%s: %w", cluster.Namespace, cronJobName, err)
-		}
+			if err := r.Get(ctx, client.ObjectKey{Namespace: cluster.Namespace, Name: cronJobName}, &updated); err != nil && !apierrors.IsNotFound(err) {
+				return fmt.Errorf("failed to get CronJob %s/%s: %w", cluster.Namespace, cronJobName, err)
+			}
 
-		if diff := cmp.Diff(*orig, updated); len(diff) > 0 {
-			fmt.Println(diff)
+			if diff := cmp.Diff(*orig, updated); len(diff) > 0 {
+				fmt.Println(diff)
+			}
 		}
-	}
 
-	log.Info("reconciled CronJob for backup", "cronJobName", cronJobName)
+		log.Info("reconciled CronJob for backup", "cronJobName", cronJobName)
+	}
 
 	if err := r.reconcileV1BackupJobRole(ctx, cluster); err != nil {
 		return err
-- 
2.43.0


From 9eee3f2d655a126edca50864d576c67ecc9ffcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:50 +0000
Subject: [PATCH 15/18] fix: ignore loose_ spellings of binary and error log
 settings in user my.cnf

---
 pkg/mycnf/generator.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/mycnf/generator.go b/pkg/mycnf/generator.go
index 2dfe93d..919a9f7 100644
--- a/pkg/mycnf/generator.go
+++ b/pkg/mycnf/generator.go
@@ -165,10 +165,11 @@ func Generate(userConf map[string]string, memTotal int64) string {
 	}
 
 	delete(mysqldConf, opaqueKey)
-	delete(mysqldConf, "log_bin")
-	delete(mysqldConf, "log_error")
-	delete(mysqldConf, "skip_log_bin")
-	delete(mysqldConf, "disable_log_bin")
+	for _, k := range []string{"log_bin", "log_error", "skip_log_bin", "disable_log_bin"} {
+		for _, kk := range listConfKeyVariations(k) {
+			delete(mysqldConf, kk)
+		}
+	}
 
 	conf := make(map[string]map[string]string)
 	conf["mysqld"] = mysqldConf
-- 
2.43.0


From 9e032ba26531aa2006925d599be928f5eb788bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:50 +0000
Subject: [PATCH 16/18] fix: make my.cnf generation deterministic when a key is
 given in several spellings

---
 pkg/mycnf/generator.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/mycnf/generator.go b/pkg/mycnf/generator.go
index 919a9f7..a2425b3 100644
--- a/pkg/mycnf/generator.go
+++ b/pkg/mycnf/generator.go
@@ -230,12 +230,19 @@ func mergeSection(conf1, conf2 map[string]string) map[string]string {
 		conf[nk] = v
 	}
 
-	for k, v := range conf2 {
+	// sort keys as different spellings of a key override each other
+	keys := make([]string, 0, len(conf2))
+	for k := range conf2 {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+
+	for _, k := range keys {
 		nk := normalizeConfKey(k)
 		for _, kk := range listConfKeyVariations(nk) {
 			delete(conf, kk)
 		}
-		conf[nk] = v
+		conf[nk] = conf2[k]
 	}
 
 	return conf
-- 
2.43.0


From a60057f9065382632b6893c3ab1be4099c3805ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:09 +0000
Subject: [PATCH 17/18] fix: keep the old CA pool when ca.crt holds no
 certificate

Reloader.check ignored the result of AppendCertsFromPEM, so a ca.crt
without a valid certificate replaced the CA pool by an empty one and
every connection to an agent failed until the next reload.
---
 pkg/cert/cert.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/cert/cert.go b/pkg/cert/cert.go
index f5ed76d..e6607c4 100644
--- a/pkg/cert/cert.go
+++ b/pkg/cert/cert.go
@@ -65,7 +65,9 @@ func (r *Reloader) check() error {
 		return fmt.Errorf("failed to load ca.crt: %w", err)
 	}
 	pool := x509.NewCertPool()
-	pool.AppendCertsFromPEM(data)
+	if !pool.AppendCertsFromPEM(data) {
+		return errors.New("failed to load ca.crt: no valid certificate found")
+	}
 
 	cert, err := tls.LoadX509KeyPair(filepath.Join(r.dir, "tls.crt"), filepath.Join(r.dir, "tls.key"))
 	if err != nil {
-- 
2.43.0


From ee73ec9d304e76d8b6146f43f312bcdf757837e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:55 +0000
Subject: [PATCH 18/18] fix: do not record the initial clone as complete while
 the cluster is offline

A cluster created offline with a replication source was marked as cloned
although nothing had been cloned, so that no clone was made once it went online.
---
 clustering/process.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clustering/process.go b/clustering/process.go
index 7d9be5e..a307ce7 100644
--- a/clustering/process.go
+++ b/clustering/process.go
@@ -338,7 +338,8 @@ func (p *managerProcess) updateStatus(ctx context.Context, ss *StatusSet) error
 		// the completion of initial cloning is recorded in the status
 		// to make it possible to determine the cloning status even while
 		// the primary instance is down.
-		if cluster.Spec.ReplicationSourceSecretName != nil && ss.State != StateCloning {
+		// while the cluster is offline, whether it has been cloned is unknown.
+		if cluster.Spec.ReplicationSourceSecretName != nil && ss.State != StateCloning && ss.State != StateOffline {
 			cluster.Status.Cloned = true
 		}
 
-- 
2.43.0

