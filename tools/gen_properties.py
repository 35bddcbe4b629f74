#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":mech}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
CL=["clustering/operations.go","clustering/process.go","clustering/status.go"]
p("C01","Only the recorded primary becomes writable, and only after its peers are fenced",
 "MOCO makes an instance writable only if it is the primary currently recorded for a cluster that does not replicate from an external source. In the same maintenance pass, before that happens, every other reachable instance (errant ones included) has been found or made super-read-only, and every healthy one follows that primary. Any failure on the way leaves the primary read-only.",
 ["schedules","fault_sequences","histories"],"every maintenance pass over every combination of instance states, with a failure possible at each database or API call",
 "unit tests drive a mock operator through a few scripted histories and never fail an arbitrary step; only e2e (not run) has real instances",
 CL+["pkg/dbop/replication.go"],["clustering.(*managerProcess).configure, configurePrimary, configureReplica","dbop.(*operator).SetReadOnly"],"super_read_only/read_only of each instance","dbop.Operator.SetReadOnly calls")
p("C02","Switchover never loses acknowledged writes",
 "A switchover records the new primary only after the old primary has been made read-only, its client connections killed, its executed GTID set read after both of those, and the chosen replica has executed all of that set within the time limit. If any of these steps fails or times out, the recorded primary does not change and the switchover is reported as failed. The instance recorded is the very replica that caught up.",
 ["schedules","fault_sequences","crash_points"],"every interleaving of writes with the switchover and every failing step",
 "tests run one successful switchover with mocks; no test fails the individual steps or reorders them",
 ["clustering/operations.go"],["clustering.(*managerProcess).switchover"],"status.currentPrimaryIndex","status update of MySQLCluster")
p("C03","Failover fences first and promotes the most advanced sound replica",
 "A failover first stops replication from the old primary on every other reachable instance, then re-reads their states, chooses the most advanced one that is neither the old primary nor errant, waits for it to execute everything it has retrieved, and only then records that instance as primary. Any failed or timed-out step aborts without changing the recorded primary. If the GTID sets of the candidates are not totally ordered, no one is promoted.",
 ["fault_sequences","schedules","histories"],"every set of surviving replicas, their GTID positions, and every failing step",
 "tests cover one failover with mock GTIDs; the fencing order and abort paths are not exercised",
 ["clustering/operations.go","pkg/dbop/gtid.go"],["clustering.(*managerProcess).failover","dbop.FindTopRunner"],"status.currentPrimaryIndex","status update of MySQLCluster")
p("C04","The recorded primary changes only through switchover or failover",
 "The index of the current primary of a cluster is written only by a switchover or failover that has completed all its steps, and always on a freshly read copy of the resource inside a conflict retry, so no concurrent status change is overwritten with stale data. No other controller, job or command ever changes it.",
 ["histories","schedules"],"all code paths of all binaries, all concurrent status writers",
 "tests cannot show the absence of other writers or of stale writes",
 ["clustering/operations.go","api/v1beta2/mysqlcluster_types.go"],["writes to MySQLClusterStatus.CurrentPrimaryIndex and status updates in clustering and backup"])
p("C05","Errant replicas are detected, remembered and kept out of the cluster",
 "A replica holding transactions that the recorded primary does not have is marked errant on every check while the primary is readable, and the recorded mark is kept while the primary is down or has lost its data. An errant replica is never a switchover or failover candidate, never carries a role label, never gets replication configured, has its replication stopped, and is never counted as a healthy replica.",
 ["histories","fault_sequences"],"every GTID history of every instance",
 "tests check single scenarios with mock GTID arithmetic",
 CL,["clustering.(*managerProcess).GatherStatus","DecideState","configureReplica","addRoleLabel","removeRoleLabel"])
p("C06","Cluster state is classified as documented",
 "A cluster is reported Healthy only if all pods are ready, all replicas are reachable, read-only, non-errant and follow the recorded primary, and the primary has the right writability and all replicas connected; Degraded only if the primary is ready, has its data, has the right writability, and at least half (but not all) of the replicas are sound; Failed only if the primary is unreachable or lost its data while more than half of the instances hold data soundly; Lost only if it is not more than half. Offline, Cloning and Restoring take precedence over all of these.",
 ["inputs","configurations"],"every combination of pod and instance states and every replica count",
 "tests enumerate a table of examples for 1, 3 and 5 replicas",
 ["clustering/status.go"],["clustering.(*StatusSet).DecideState and the predicates it calls"])
p("C07","Each cluster state permits only its documented actions",
 "An offline, restoring or lost cluster is left untouched by the maintenance loop: no instance is reconfigured, made writable or promoted. A cloning cluster is only cloned from its source, a failed cluster only undergoes failover, a switchover happens only in the healthy or degraded state, when requested, and not while replication delay prevents pod deletion, and no reconfiguration follows in the same pass. A failed action is reported as an error, never as success.",
 ["histories","configurations"],"every state decision and every pass",
 "tests observe the actions of a handful of passes",
 ["clustering/process.go"],["clustering.(*managerProcess).do"])
p("C08","Acknowledged writes are semi-synchronously replicated",
 "Before the primary of a multi-instance cluster is made writable, semi-synchronous replication is on with acknowledgement from half of the instances (rounded down) and a timeout far longer than any failover, and replicas that follow it acknowledge semi-synchronously while their own server-side semi-sync is off. The number of acknowledgements and the timeout are in force before semi-sync is switched on. Intermediate primaries use asynchronous replication.",
 ["configurations","fault_sequences"],"every replica count and every partially failed configuration",
 "the real operator is never run in unit tests",
 ["pkg/dbop/replication.go","clustering/operations.go"],["dbop.(*operator).ConfigurePrimary, ConfigureReplica","clustering.(*managerProcess).configurePrimary"])
p("C09","An instance joins replication without silent gaps",
 "Replication on a non-primary instance is configured only from the recorded primary, with GTID auto-positioning on every supported MySQL version, and only after checking that the primary still has every transaction the instance lacks. Data is cloned only into an instance that has executed nothing and replicates nothing, and only when the primary has data. A failed or unsupported step is reported and replication is not started.",
 ["fault_sequences","histories","configurations"],"every purge history, version and failing step",
 "needs real servers with purged binlogs; mocks return success",
 ["clustering/operations.go","pkg/dbop/replication.go"],["clustering.(*managerProcess).configureReplica, clone, configureIntermediatePrimary","dbop.(*operator).ConfigureReplica"])
p("C10","Published conditions and counters tell the truth",
 "The Available condition of a cluster is true only in the healthy or degraded state, Healthy only in the healthy state, and Initialized is false exactly while cloning or restoring; the metrics of the same names agree with them. The synced and errant replica counts are those of the instances just observed. The mark that the initial clone is complete is set only for a cluster with a replication source that is past cloning.",
 ["inputs","histories"],"every state and every status write",
 "tests look at the condition values for a few states",
 ["clustering/process.go"],["clustering.(*managerProcess).updateStatus"])
p("C11","Role labels route traffic only to the right instances",
 "Only the pod of the recorded primary ever gets the primary role label, and only non-errant replica pods get the replica role label. A pod whose role changed loses its label first, then its client connections are killed, and the new label is added only after the instance has been configured for its new role.",
 ["schedules","fault_sequences","histories"],"every role change and every failing step",
 "tests check final labels, not the order or the failure paths",
 ["clustering/operations.go"],["clustering.(*managerProcess).configure, removeRoleLabel, addRoleLabel"])
p("C12","Killing connections spares exactly MOCO itself and local sessions",
 "When MOCO kills connections of an instance it kills every client connection except those of MOCO's own system users, replication threads and local sessions; users handed to applications are always killed. A connection that is already gone is not an error, any other failure is reported.",
 ["inputs","schedules"],"every process list",
 "needs a real server; unit tests skip it",
 ["pkg/dbop/kill.go","pkg/constants/users.go"],["dbop.(*operator).KillConnections","constants.MocoSystemUsers"])
p("C13","Instance status is complete or an error, never a guess",
 "Reading the status of an instance returns either a complete observation or an error: a query failure is never mistaken for an empty result, and only a missing row means that replication or cloning is not configured. Every queried variable lands in the field the decisions read. Operations on an instance whose address is unknown always fail.",
 ["fault_sequences","inputs"],"every failing query at every step",
 "mocks replace the real operator in unit tests",
 ["pkg/dbop/status.go","pkg/dbop/types.go","pkg/dbop/nop.go","pkg/dbop/gtid.go"],["dbop.(*operator).GetStatus","dbop.NopOperator","statusGlobalVars and struct tags"])
p("C14","Database and agent connections are always released",
 "Every connection MOCO opens to a database instance or to an agent is closed on every exit of the operation that opened it, including failures in the middle of opening several.",
 ["fault_sequences","crash_points"],"every early return",
 "leaks do not fail unit tests",
 ["clustering/process.go","clustering/status.go","clustering/operations.go","backup/backup.go","backup/restore.go"],["callers of OperatorFactory.New, AgentFactory.New, bkop.NewOperator"])
p("C15","At most one maintenance loop per cluster, none after shutdown",
 "For each cluster at most one maintenance loop is registered at any time, whatever the interleaving of update, stop, pause and shutdown requests. A notification marked as not starting never starts a loop, nothing is started after shutdown, and stopping or pausing a cluster cancels its loop and forgets it. Shutdown returns only after all loops have ended.",
 ["schedules"],"all interleavings of the manager's methods",
 "tests call the methods sequentially",
 ["clustering/manager.go","clustering/process.go"],["clustering.(*clusterManager)"])
p("C16","Stop annotations are honoured",
 "While clustering is stopped by annotation, reconciling the cluster always halts its maintenance loop and never starts one. While reconciliation is stopped by annotation, reconciling the cluster creates, changes or deletes no resource of it other than recording the fact in its status, unless the cluster is being deleted. Pod events never start a maintenance loop.",
 ["histories","schedules"],"every history of annotation changes and controller restarts",
 "tests toggle the annotations once",
 ["controllers/mysqlcluster_controller.go","controllers/pod_watcher.go"],["controllers.(*MySQLClusterReconciler).reconcileV1, clusteringStopV1, reconciliationStopV1","controllers.(*PodWatcher).Reconcile"])
p("C17","Deleting a cluster stops it and cleans up before letting go",
 "When a cluster is being deleted, its maintenance loop is stopped and the objects kept outside its namespace (controller secret and certificate) are deleted, and only when that succeeded is the finalizer removed; nothing else is reconciled any more. The finalizer is put on every cluster that is admitted, and a cluster that no longer exists has its loop stopped.",
 ["fault_sequences","crash_points"],"every failing step and every retry",
 "tests delete a cluster once with everything succeeding",
 ["controllers/mysqlcluster_controller.go","api/v1beta2/mysqlcluster_webhook.go"],["controllers.(*MySQLClusterReconciler).reconcileV1, finalizeV1"])
p("C18","Credentials are strong, generated once and kept consistent",
 "Passwords are generated from a cryptographic random source exactly when the controller secret is confirmed not to exist, and an existing controller secret is never overwritten or regenerated, whatever error reading it returns. Every derived secret carries the passwords of the controller secret under the right user, and a secret that does not carry the current format version is rejected.",
 ["fault_sequences","inputs"],"every API error and every secret content",
 "tests read the secrets once after creation",
 ["controllers/mysqlcluster_controller.go","pkg/password/password.go"],["controllers.(*MySQLClusterReconciler).reconcileV1Secret","password.MySQLPassword"])
p("C19","MOCO never destroys data and deletes only its own objects",
 "No binary of MOCO ever deletes pods, volume claims, volumes, namespaces or whole collections, and a StatefulSet is deleted only to be recreated, orphaning its pods. Anything else it deletes is either addressed by a name derived from the cluster being reconciled or verified to be owned by that cluster.",
 ["inputs","histories","configurations"],"all code paths, all cluster names in a namespace",
 "tests have one cluster per namespace and cannot show absence",
 ["controllers/mysqlcluster_controller.go","controllers/pvc.go","controllers/partition_controller.go"],["all client Delete/DeleteAllOf calls"])
p("C20","Volume claims are only ever grown",
 "MOCO changes the requested size of an existing volume claim only when the new size is strictly larger than the current request, the storage class allows expansion, the claim belongs to the cluster's StatefulSet, and no rollout is in progress. A request for a smaller size never shrinks an existing claim.",
 ["inputs","configurations"],"every pair of sizes and storage classes",
 "tests use a few quantities",
 ["controllers/pvc.go"],["controllers.(*MySQLClusterReconciler).reconcilePVC, resizePVCs, needResizePVC"])
p("C21","Rolling updates proceed one healthy pod at a time",
 "During a rolling update the partition of the StatefulSet is lowered by exactly one per step, and only if both the cluster and the StatefulSet are fully reconciled, all pods other than the next target are up to date as required, not terminating and available, the cluster is healthy unless the target itself is the broken one, and the global rate limit allows. The step is rejected if the StatefulSet changed meanwhile.",
 ["schedules","histories","configurations"],"every pod state combination and every concurrent change",
 "envtest has no real pods or statefulset controller; races are not scheduled",
 ["controllers/partition_controller.go"],["controllers.(*StatefulSetPartitionReconciler).Reconcile, isRolloutReady, areAllChildPodsRolloutReady, patchNewPartition"])
p("C22","A changed StatefulSet starts its rollout fully held back",
 "Whenever the pod template or any other part of a MOCO StatefulSet's specification other than the partition changes, admission resets the partition to the number of replicas so that no pod restarts on its own, unless a forced rolling update was requested. An update that only moves the partition is left as it is.",
 ["inputs"],"every pair of old and new objects",
 "tests try a few edits",
 ["api/v1beta2/statefulset_webhhok.go"],["api/v1beta2 StatefulSetDefaulter"])
p("C23","Dangerous cluster edits are rejected at admission",
 "Admission rejects a cluster whose replica count is not a positive odd number or decreases, whose restore specification is changed after creation, whose replication source is added or altered after creation (it may only be removed), whose volume claim templates lack the data volume, or whose name is too long. Defaulting adds the finalizer and, if none is given, a positive server ID base; a given one is never replaced.",
 ["inputs"],"every old and new specification",
 "tests try one example per rule",
 ["api/v1beta2/mysqlcluster_types.go","api/v1beta2/mysqlcluster_webhook.go"],["MySQLClusterSpec.validateCreate, validateUpdate","webhook Default"])
p("C24","User-supplied names cannot collide with what MOCO injects",
 "Every container, init container, volume and port name that MOCO itself puts into the pods of a cluster is refused at admission when the user supplies it, so no accepted specification makes the generated pods invalid or replaces MOCO's own parts.",
 ["inputs","configurations"],"every accepted pod template",
 "tests try single reserved names",
 ["api/v1beta2/mysqlcluster_types.go","controllers/mysqlcluster_controller.go","controllers/mysql_container.go"],["MySQLClusterSpec.validateCreate","pod construction in controllers"])
p("C25","Safety-critical mysqld settings cannot be overridden",
 "The generated my.cnf always contains MOCO's mandatory settings with their safe values (start read-only, replication not started, GTID mode and consistency, row-based binlog, replica updates logged, no relay log recovery, ports, socket and directories), whatever settings the user's ConfigMap has, in whichever spelling (dashes or underscores, loose_ prefix). Settings users may not give (log_bin, log_error, skip_log_bin, disable_log_bin) are dropped, other user settings replace MOCO's defaults in any of these spellings, and the unchecked _include block comes before the mandatory settings. The same input always yields the same text, so a regeneration does not restart instances; that text is what the instances are given.",
 ["inputs","configurations"],"every user configuration map",
 "tests use sample maps",
 ["pkg/mycnf/generator.go","controllers/mysqlcluster_controller.go"],["mycnf.Generate, mergeSection","controllers.reconcileV1MyCnf"])
p("C26","A backup is recorded only if it is complete",
 "The backup status of a cluster is updated only after the dump was taken, archived and uploaded without error, and describes that very backup (time, source, GTID set, binlog position). A failure to save binary logs is recorded as a warning and never hides or fails the full backup; every other failure is returned so that the job fails.",
 ["fault_sequences","crash_points"],"every failing command, upload and API call",
 "tests use mock operators and buckets that succeed or fail wholesale",
 ["backup/backup.go","pkg/bkop/backup.go"],["backup.(*BackupManager).Backup, backupFull, backupBinlog"])
p("C27","A restore is complete, or reported as failed",
 "A cluster is marked as restored only after the instance was found read-only and prepared, the dump loaded, the binary logs applied when they are needed, and the instance closed to writes again, all without error. The restore command never exits successfully otherwise, and it never touches an instance that did not become ready.",
 ["fault_sequences","crash_points","histories"],"every failing step and every retry",
 "tests use a mock operator and one failing case",
 ["backup/restore.go","pkg/bkop/restore.go","cmd/moco-backup/cmd/restore.go"],["backup.(*RestoreManager).Restore","moco-backup restore command"])
p("C28","Point-in-time restore uses the right backup and stops at the point",
 "A restore loads the latest dump not newer than the restore point, and applies only binary logs belonging to that same backup, in order, stopping at the restore point expressed in the same time zone on both sides. Backup objects are stored and found under the same cluster-specific prefix and time format, and another cluster's objects are never picked up.",
 ["inputs","histories"],"every set of object keys and restore points",
 "tests use a few key lists",
 ["backup/restore.go","backup/key.go","pkg/bkop/restore.go","pkg/constants/backup.go"],["backup.(*RestoreManager).FindNearestDump","calcKey, calcPrefix","bkop LoadBinlog"])
p("C29","Backups are taken from a suitable instance",
 "A backup is taken only from a ready instance and from the primary only when no suitable replica exists. Binary logs are saved only from an instance whose server identity is unchanged since the last backup, starting from the recorded binlog when the source is the same instance and from its oldest binlog otherwise, and excluding exactly what the last full backup contains.",
 ["inputs","histories"],"every readiness and UUID history",
 "tests enumerate small tables",
 ["backup/backup.go"],["backup.(*BackupManager).ChoosePod, GetUUIDSet, backupBinlog"])
p("C30","Object storage operations are complete or fail",
 "Storing an object succeeds only if all data was accepted and finalised by the storage service, listing returns every key with the prefix across all result pages, and any error of the service is returned to the caller, for each supported storage service.",
 ["fault_sequences","inputs"],"every object count, size and service error",
 "bucket tests need containers and do not run",
 ["pkg/bucket/s3.go","pkg/bucket/gcs.go","pkg/bucket/azure.go"],["implementations of bucket.Bucket"])
p("C31","Passwords never reach logs, events, errors or status",
 "No password handled by MOCO (cluster users, replication source, backup credentials) ever flows into a log message, an event, an error text, a metric, a label, or a resource other than a Secret.",
 ["inputs","programs"],"every execution path of every binary",
 "tests do not inspect log output",
 ["pkg/password/password.go","clustering/operations.go","pkg/dbop/operator.go","backup/backup.go"],["sources: password accessors, secret data; sinks: logr, record.EventRecorder, fmt.Errorf"])
p("C32","Agent traffic is mutually authenticated",
 "Every connection to an agent uses TLS with the client certificate and verifies the agent's certificate against the cluster's own CA; verification is never disabled and plaintext is never used. When certificates are reloaded from disk, new connections use the new ones, concurrent use is race-free, and a failed reload keeps the old ones.",
 ["schedules","configurations"],"all connections and reload interleavings",
 "TLS to agents is mocked in tests",
 ["clustering/agent.go","pkg/cert/cert.go"],["clustering.defaultAgentFactory.New","cert.Reloader"])
p("C33","Every generated object is owned by its cluster",
 "Every object other than an Event that MOCO creates or applies in the cluster's namespace carries a controller reference to that cluster before it is sent, so it is garbage-collected with it; objects kept in the system namespace are deleted by finalization instead.",
 ["configurations","histories"],"every kind of object on every path",
 "tests check owner references of some kinds",
 ["controllers/mysqlcluster_controller.go","controllers/certificate.go"],["apply[...] call sites","setControllerReference"])
p("C34","Disruption budgets preserve the write quorum",
 "A pod disruption budget exists for every multi-instance online cluster and never allows more pods to be evicted at once than the cluster can lose while keeping its semi-sync quorum; no eviction is allowed while a backup is running, and no budget blocks a single-instance cluster.",
 ["configurations","histories"],"every replica count and job state",
 "tests check 3 replicas",
 ["controllers/mysqlcluster_controller.go"],["controllers.(*MySQLClusterReconciler).reconcileV1PDB"])
p("C35","Services select exactly the pods of their role",
 "The primary service selects only pods of the cluster labelled as primary, the replica service only those labelled as replica, and the headless service publishes addresses of all pods, ready or not. A user-supplied service template can change none of the selectors, ports or the headless setting.",
 ["inputs","configurations"],"every service template",
 "tests use sample templates",
 ["controllers/mysqlcluster_controller.go"],["controllers.(*MySQLClusterReconciler).reconcileV1Service, reconcileV1Service1"])
p("C36","The maintenance loop survives missing pods and unreachable instances",
 "A maintenance pass never crashes the controller because a pod is missing, an instance is unreachable, or replication, clone or status information is absent: anything that can be absent is checked before use on every path.",
 ["fault_sequences","histories","configurations"],"every combination of missing pods and instance information",
 "tests run with all pods present",
 CL,["uses of StatusSet.Pods, StatusSet.MySQLStatus, ReplicaStatus, CloneStatus"])
p("C37","Failures are never silently treated as success",
 "Whenever a database statement, external command, object-storage transfer or Kubernetes write fails, the enclosing operation reports the failure or retries; it never carries on as if the step had succeeded, except for the explicitly tolerated best-effort steps (closing, clean-up, events).",
 ["fault_sequences"],"every call site that can fail",
 "tests do not inject a fault at each call site",
 ["clustering","pkg/dbop","pkg/bkop","pkg/bucket","backup","controllers","cmd"],["error results of all effectful calls"])
p("C38","SQL and shell text is never built from data",
 "Every SQL statement sent to a database is a fixed text with data passed only as bound parameters, and external commands are run directly with argument lists, never through a shell with interpolated data.",
 ["inputs","programs"],"every execution path",
 "tests use benign inputs",
 ["pkg/dbop","pkg/bkop","backup"],["calls into database/sql, sqlx and os/exec"])
p("C39","Replication delay blocks pod deletion and switchover",
 "When any replica's measured delay exceeds the configured limit, the primary pod carries the deletion-blocking annotation and no switchover happens; the annotation is removed from all pods once no replica exceeds the limit. Without a configured limit nothing is ever blocked.",
 ["inputs","histories"],"every delay observation, including unknown delay",
 "tests use fixed delays",
 ["clustering/status.go","clustering/process.go","clustering/operations.go","config/webhook/validate_preventdelete.yaml"],["GatherStatus","addAnnPreventDelete, removeAnnPreventDelete"])
p("C40","Scheduled backup and restore jobs run safely",
 "Backups run on the schedule and under the concurrency policy of the backup policy that the cluster names, a restore job is created only for a cluster that asks for a restore and has not been restored, and these jobs always run with the credentials, service account, permissions and cluster identity of the right cluster and with the configured bucket. Whatever fails in between, a successful reconciliation leaves the job together with its role and binding; without a backup policy, no backup schedule remains.",
 ["configurations","histories"],"every backup policy and restore specification",
 "tests check one job of each kind",
 ["controllers/mysqlcluster_controller.go"],["controllers.(*MySQLClusterReconciler).reconcileV1BackupJob, reconcileV1RestoreJob"])
p("C41","The cluster converges to a healthy state eventually",
 "If all instances stay reachable and free of errant transactions, repeated maintenance passes eventually bring the cluster to the healthy state.",
 ["schedules","histories"],"every fair schedule","liveness over unbounded histories",
 CL,["the maintenance loop as a whole"])
p("C42","Restored data equals the source data at the restore point",
 "After a successful restore the database content equals that of the source cluster at the restore point.",
 ["inputs","histories"],"every data set and transaction history","needs real MySQL data",
 ["backup/restore.go","pkg/bkop/restore.go"],["mysqlsh, mysqlbinlog and mysql commands"])
p("C43","Failover completes within a bounded time",
 "When the primary dies and a majority survives, a new primary accepts writes within a bounded time.",
 ["schedules","fault_sequences"],"every timing of failures","real-time bound over external systems",
 CL,["timeouts and intervals"])
p("C44","Pods of a cluster run what MOCO relies on, on the cluster's own data",
 "Whatever the user's pod template says, the StatefulSet of a cluster has the requested replicas (none when offline), the cluster's name, selector, headless service and labels, and every pod has the initialising containers in order, mysqld and the agent, plus the user's further containers. MOCO's containers run the configured images, mount the cluster's own data, generated configuration, credentials and certificate where they are expected, and listen on the ports others use; mysqld is started, kept and made ready by the agent's health endpoints and delays its stop. Initialisation gets the cluster's server ID base and directories, and the agent the cluster's passwords, name and limits.",
 ["inputs","configurations"],"every cluster specification and pod template accepted by the API, and every earlier state of the StatefulSet",
 "tests compare a few generated StatefulSets, and need an API server",
 ["controllers/mysqlcluster_controller.go","controllers/mysql_container.go"],["controllers.(*MySQLClusterReconciler).reconcileV1StatefulSet","makeV1MySQLDContainer, makeV1AgentContainer, makeV1InitContainer, makeV1OptionalContainers"])
p("C45","kubectl-moco acts on exactly what it is asked about, or fails",
 "Each subcommand reads and writes only the named cluster, its current-primary pod or its user secret, in the selected namespace: switchover marks exactly the pod of the current primary of an online multi-instance cluster, start and stop change exactly the annotation they are named after and nothing else, credential prints exactly the requested user's password, and mysql runs in the requested existing instance, or the current primary, as the requested user. A subcommand succeeds only if that was achieved or already so. Unless asked otherwise the least privileged user is used.",
 ["inputs","fault_sequences"],"every command line, cluster state and API failure",
 "there are no unit tests of these commands",
 ["cmd/kubectl-moco/cmd"],["switchover","startClustering, stopClustering, startReconciliation, stopReconciliation","getPassword, getPodName, runMySQLCommand"])
p("C46","A backup policy in use cannot be deleted or become invalid",
 "Deleting a BackupPolicy is refused while any cluster of its namespace names it, and allowed otherwise, whatever other clusters exist; if it is not known whether one does, deletion is refused. A policy is created or changed only if its schedule and its job settings are valid, and the checks always judge the new object.",
 ["inputs","configurations"],"every set of clusters and every policy object",
 "tests use one cluster and one policy",
 ["api/v1beta2/backuppolicy_webhook.go","api/v1beta2/backuppolicy_types.go"],["v1beta2.(*backupPolicyAdmission).ValidateCreate, ValidateUpdate, ValidateDelete"])
p("C47","One leader acts, and every relevant change reaches it",
 "At any time at most the elected leader runs controllers and maintenance loops, and a process that stops being the leader ends only after all its loops have ended. Every change of a cluster, of an object MOCO made for it, of its certificate, or of a config map or backup policy it names leads to a reconciliation of that cluster, and a pod of a cluster that is being deleted or marked for demotion wakes that cluster's maintenance loop. A running loop runs a pass after every notification and at every interval until it is stopped.",
 ["schedules","histories"],"every sequence of events and every timing of leadership changes",
 "tests run one controller process and cannot enumerate events",
 ["cmd/moco-controller/cmd/run.go","controllers/mysqlcluster_controller.go","controllers/pod_watcher.go","controllers/partition_controller.go","clustering/manager.go","clustering/process.go"],["SetupWithManager of the controllers","controllers.(*PodWatcher).Reconcile","clustering.(*managerProcess).Start, Update"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    import re
    assert len(re.findall(r"[.](\s|$)",x["statement"]))<=3,(x["id"],x["statement"])
print(len(P))
