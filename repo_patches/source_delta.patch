From c956bfe577e40ba182dc90acd499cb1463f44a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:54 +0000
Subject: [PATCH 01/31] fix: keep the default block size of 1 in the time
 dimension

---
 grid/level/blocked.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/grid/level/blocked.h b/grid/level/blocked.h
index b8ff243..b3318f1 100644
--- a/grid/level/blocked.h
+++ b/grid/level/blocked.h
@@ -114,10 +114,11 @@ protected:
 		m_totalBlocks = 1;
 		m_totalBlockSize = 1;
 		for (unsigned int i = 0; i < this->dimensions(); i++) {
-			if (blockSize[this->dimensions() - i - 1] == 0)
+			if (blockSize[this->dimensions() - i - 1] == 0) {
 				// Setting default block size, if not yet set
-				m_blockSize[i] = 64;
-			else if (blockSize[this->dimensions() - i - 1] < 0)
+				if (static_cast<int>(this->dimensions() - i - 1) != timeDimension)
+					m_blockSize[i] = 64;
+			} else if (blockSize[this->dimensions() - i - 1] < 0)
 				// Set block size to maximum
 				m_blockSize[i] = this->size(i);
 			else
-- 
2.43.0


From 641607d487cf5c9f48332ac8fb859586ce4dc030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:54 +0000
Subject: [PATCH 02/31] fix: select the NUMA cache container when NUMA
 communication is enabled

---
 grid/grid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grid/grid.cpp b/grid/grid.cpp
index 49c82be..c3faeed 100644
--- a/grid/grid.cpp
+++ b/grid/grid.cpp
@@ -347,9 +347,9 @@ void grid::Grid::initContainers()
 	if (gridType == "CACHE") {
 		if (mpiType == "OFF") {
 			if (numaType == "OFF")
-				containerType = CACHE_NUMA;
-			else
 				containerType = CACHE;
+			else
+				containerType = CACHE_NUMA;
 		} else if (mpiType == "THREAD") {
 			if (numaType == "OFF")
 				containerType = CACHE_MPITHREAD;
-- 
2.43.0


From d0d590d17b67f911e780b4fabe4f02d12d3d79ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:54 +0000
Subject: [PATCH 03/31] fix: return the counters of the requested level

---
 grid/grid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grid/grid.cpp b/grid/grid.cpp
index c3faeed..5eef5ee 100644
--- a/grid/grid.cpp
+++ b/grid/grid.cpp
@@ -257,7 +257,7 @@ unsigned long grid::Grid::getCounter(const char* name, unsigned int level)
 	// Aggregate over all NUMA domains
 	for (std::vector<Container*>::const_iterator it = m_containers.begin();
 			it != m_containers.end(); it++)
-		counter += (*it)->getCounter(type);
+		counter += (*it)->getCounter(type, level);
 
 	return counter;
 }
-- 
2.43.0


From c2296c0b760e06c4263ba12e9a61a62771c9342e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:54 +0000
Subject: [PATCH 04/31] fix: do not move open levels when another level is
 added

---
 grid/simplecontainer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grid/simplecontainer.h b/grid/simplecontainer.h
index 16ae028..f3da6bc 100644
--- a/grid/simplecontainer.h
+++ b/grid/simplecontainer.h
@@ -38,7 +38,7 @@
 #ifndef GRID_SIMPLECONTAINER_H
 #define GRID_SIMPLECONTAINER_H
 
-#include <vector>
+#include <deque>
 
 #include "typedcontainer.h"
 
@@ -55,7 +55,7 @@ class SimpleContainer : public TypedContainer<Type>
 {
 private:
 	/** All grids we control */
-	std::vector<Level> m_levels;
+	std::deque<Level> m_levels; // Adding a level must not move the other levels
 
 public:
 	/**
-- 
2.43.0


From 5c56a8c54d2d01ff42dca61756141d06c59af179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:54 +0000
Subject: [PATCH 05/31] fix: limit the spread of the clock hands to the size of
 the cache

---
 cache/lru.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cache/lru.h b/cache/lru.h
index 625f5ac..69bf66f 100644
--- a/cache/lru.h
+++ b/cache/lru.h
@@ -38,6 +38,8 @@
 #ifndef CACHE_LRU_H
 #define CACHE_LRU_H
 
+#include <algorithm>
+
 namespace cache
 {
 	
@@ -82,7 +84,7 @@ public:
 			// Some default value
 			m_nextClear = size / 2;
 		else
-			m_nextClear = handDiff;
+			m_nextClear = std::min(static_cast<unsigned long>(handDiff), size - 1);
 
 		m_referenced = new bool[size];
 		// Rest of the array will bet set to "false" by getFree()
-- 
2.43.0


From 0a04415867bd11572edcdcc89ba72105d47c3f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:13 +0000
Subject: [PATCH 06/31] fix: receive dictionary entries with the tag they are
 sent with

---
 transfer/mpithreadcache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transfer/mpithreadcache.h b/transfer/mpithreadcache.h
index 9439405..631a6ca 100644
--- a/transfer/mpithreadcache.h
+++ b/transfer/mpithreadcache.h
@@ -469,7 +469,7 @@ public:
 		mpi::CommThread::commThread.send(m_blockInfoTag, dictRank, dictOffset);
 
 		long entry;
-		mpiResult = MPI_Recv(&entry, 1, MPI_LONG, dictRank, ENTRY_TAG,
+		mpiResult = MPI_Recv(&entry, 1, MPI_LONG, dictRank, m_tagOffset+ENTRY_TAG,
 				mpiComm().comm(), MPI_STATUS_IGNORE);
 		assert(mpiResult == MPI_SUCCESS);
 
-- 
2.43.0


From f7dbd45b5fbc0c12f89992c9434eccdee739cdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:13 +0000
Subject: [PATCH 07/31] fix: use a separate tag for the blocks of each level

---
 transfer/mpithreadfull.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transfer/mpithreadfull.h b/transfer/mpithreadfull.h
index 1199a1a..468f66f 100644
--- a/transfer/mpithreadfull.h
+++ b/transfer/mpithreadfull.h
@@ -175,7 +175,7 @@ public:
 
 		mpi::CommThread::commThread.send(m_tag, remoteRank, offset);
 
-		mpiResult = MPI_Recv(cache, m_blockSize, m_mpiType, remoteRank, 0, m_comm, MPI_STATUS_IGNORE);
+		mpiResult = MPI_Recv(cache, m_blockSize, m_mpiType, remoteRank, m_tag, m_comm, MPI_STATUS_IGNORE);
 		assert(mpiResult == MPI_SUCCESS);
 	}
 
@@ -186,7 +186,7 @@ public:
 		int mpiResult; NDBG_UNUSED(mpiResult);
 
 		mpiResult = MPI_Send(const_cast<unsigned char*>(&m_data[blockId*m_blockSize*m_typeSize]),
-				m_blockSize, m_mpiType, sender, 0, m_comm);
+				m_blockSize, m_mpiType, sender, m_tag, m_comm);
 		assert(mpiResult == MPI_SUCCESS);
 	}
 };
-- 
2.43.0


From c2da937b40ebb97e3d282524691a59ee37f3f871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 08/31] fix: accept requests for cached blocks only after all
 NUMA domains are initialized

---
 transfer/mpithreadcache.h | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/transfer/mpithreadcache.h b/transfer/mpithreadcache.h
index 631a6ca..6872599 100644
--- a/transfer/mpithreadcache.h
+++ b/transfer/mpithreadcache.h
@@ -376,9 +376,28 @@ public:
 
 			// Create the mutexes for the blocks
 			m_mutexes = new threads::Mutex[blockCount * m_numaDomainSize];
+		}
+
+		// Remote requests have to be expected as soon as the receivers are registered.
+		// Wait until all NUMA domains are initialized.
+		asagi::Grid::Error err = numaComm.broadcast(m_cacheManager);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		m_cacheManager[m_numaDomainId] = &cacheManager;
+
+		err = numaComm.broadcast(m_mutexes);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		if (m_numaDomainId == 0) {
+			m_tagOffset = mpiComm.reserveTags(3);
+
+			m_infoMutex = new threads::Mutex();
+			m_blockMutex = new threads::Mutex();
 
 			// Initialize the receivers
-			asagi::Grid::Error err = mpi::CommThread::commThread
+			err = mpi::CommThread::commThread
 				.registerReceiver(mpiComm.comm(), m_blockInfoResponder, m_blockInfoTag);
 			if (err != asagi::Grid::SUCCESS)
 				return err;
@@ -397,23 +416,8 @@ public:
 				.registerReceiver(mpiComm.comm(), m_deleter, m_deleterTag);
 			if (err != asagi::Grid::SUCCESS)
 				return err;
-
-			m_tagOffset = mpiComm.reserveTags(3);
-
-			m_infoMutex = new threads::Mutex();
-			m_blockMutex = new threads::Mutex();
 		}
 
-		asagi::Grid::Error err = numaComm.broadcast(m_cacheManager);
-		if (err != asagi::Grid::SUCCESS)
-			return err;
-
-		m_cacheManager[m_numaDomainId] = &cacheManager;
-
-		err = numaComm.broadcast(m_mutexes);
-		if (err != asagi::Grid::SUCCESS)
-			return err;
-
 		err = numaComm.broadcast(m_blockInfoTag);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
-- 
2.43.0


From cccac12ceb08df70c09ceeb8ea1169930a28421a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 09/31] fix: finish the registration of a receiver on all
 processes

---
 mpi/commthread.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpi/commthread.h b/mpi/commthread.h
index 6a64b0e..f19a6d7 100644
--- a/mpi/commthread.h
+++ b/mpi/commthread.h
@@ -237,6 +237,10 @@ public:
 		MPI_Comm_group(comm, &detail.group);
 		m_receiver[tag] = detail;
 
+		// Other processes must not send messages before the receiver is registered
+		if (MPI_Barrier(comm) != MPI_SUCCESS)
+			return asagi::Grid::MPI_ERROR;
+
 		return asagi::Grid::SUCCESS;
 	}
 
-- 
2.43.0


From 4fbc89fa348371960e50a065cc609877887004a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 10/31] fix: free the MPI groups of the communication thread

---
 mpi/commthread.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mpi/commthread.h b/mpi/commthread.h
index f19a6d7..5f5fdfd 100644
--- a/mpi/commthread.h
+++ b/mpi/commthread.h
@@ -203,7 +203,8 @@ public:
 			m_receiver.clear();
 		}
 
-		// Free the communicator
+		// Free the communicator and the group
+		MPI_Group_free(&m_group);
 		MPI_Comm_free(&m_comm);
 	}
 
@@ -300,7 +301,11 @@ private:
 				if (status.MPI_SOURCE != commThread.m_rank)
 					logError() << "Rank is not allowed to send unregister command";
 
-				commThread.m_receiver.erase(data);
+				std::unordered_map<int, ReceiverDetail>::iterator it = commThread.m_receiver.find(data);
+				if (it != commThread.m_receiver.end()) {
+					MPI_Group_free(&it->second.group);
+					commThread.m_receiver.erase(it);
+				}
 				commThread.m_lock.unlock(); // Release the lock from unregisterReceiver
 				continue;
 			}
-- 
2.43.0


From 6fe5a65d10687a043754aae66f0821aeda3c1ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 11/31] fix: pin the communication thread to the last CPUs for
 negative ids

---
 mpi/commthread.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpi/commthread.h b/mpi/commthread.h
index 5f5fdfd..16b83ac 100644
--- a/mpi/commthread.h
+++ b/mpi/commthread.h
@@ -165,7 +165,7 @@ public:
 			if (schedCPU >= 0)
 				CPU_SET(schedCPU, &cpuset);
 			else
-				CPU_SET(numCPUs - schedCPU, &cpuset);
+				CPU_SET(numCPUs + schedCPU, &cpuset);
 
 			pthread_setaffinity_np(m_thread, sizeof(cpu_set_t), &cpuset);
 		} else
-- 
2.43.0


From 26e0efe24d1bac32ba0347b5008b172623c46441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:23 +0000
Subject: [PATCH 12/31] fix: give remote processes access to the blocks only
 after all NUMA domains loaded them

---
 transfer/mpithreadfull.h | 19 +++++++++++--------
 transfer/mpiwinfull.h    | 15 +++++++++------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/transfer/mpithreadfull.h b/transfer/mpithreadfull.h
index 468f66f..05da172 100644
--- a/transfer/mpithreadfull.h
+++ b/transfer/mpithreadfull.h
@@ -139,20 +139,23 @@ public:
 		m_comm = mpiComm.comm();
 		m_mpiType = type.getMPIType();
 
+		if (m_numaDomainId == 0)
+			m_sendRecvMutex = new threads::Mutex();
+
+		// Other processes may request all blocks as soon as the receiver is registered.
+		// Wait until all NUMA domains have loaded their blocks.
+		asagi::Grid::Error err = numaComm.broadcast(m_sendRecvMutex);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
 		if (m_numaDomainId == 0) {
-			asagi::Grid::Error err = mpi::CommThread::commThread
+			err = mpi::CommThread::commThread
 				.registerReceiver(m_comm, *this, m_tag);
 			if (err != asagi::Grid::SUCCESS)
 				return err;
-
-			m_sendRecvMutex = new threads::Mutex();
 		}
 
-		asagi::Grid::Error err = numaComm.broadcast(m_tag);
-		if (err != asagi::Grid::SUCCESS)
-			return err;
-
-		err = numaComm.broadcast(m_sendRecvMutex);
+		err = numaComm.broadcast(m_tag);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
diff --git a/transfer/mpiwinfull.h b/transfer/mpiwinfull.h
index b9bf6b0..b8df80d 100644
--- a/transfer/mpiwinfull.h
+++ b/transfer/mpiwinfull.h
@@ -123,11 +123,18 @@ public:
 		m_blockSize = blockSize;
 		m_mpiType = type.getMPIType();
 
+		if (m_numaDomainId == 0)
+			m_winMutex = new threads::Mutex();
+
+		// Other processes may access all blocks as soon as the window exists.
+		// Wait until all NUMA domains have loaded their blocks.
+		asagi::Grid::Error err = numaComm.broadcast(m_winMutex);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
 		if (m_numaDomainId == 0) {
 			unsigned int typeSize = type.size();
 
-			m_winMutex = new threads::Mutex();
-
 			std::lock_guard<mpi::Lock> lock(mpi::MPIComm::mpiLock);
 
 			// Create the mpi window for distributed blocks
@@ -140,10 +147,6 @@ public:
 				return asagi::Grid::MPI_ERROR;
 		}
 
-		asagi::Grid::Error err = numaComm.broadcast(m_winMutex);
-		if (err != asagi::Grid::SUCCESS)
-			return err;
-
 		err = numaComm.broadcast(m_window);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
-- 
2.43.0


From 3cb2d9c8f7f431c854d00f33e22ec396cfb00615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:23 +0000
Subject: [PATCH 13/31] fix: return a failed receiver registration in all NUMA
 domains

---
 transfer/mpithreadcache.h | 66 ++++++++++++++++++++++++---------------
 transfer/mpithreadfull.h  | 21 ++++++++-----
 2 files changed, 55 insertions(+), 32 deletions(-)

diff --git a/transfer/mpithreadcache.h b/transfer/mpithreadcache.h
index 6872599..34618ac 100644
--- a/transfer/mpithreadcache.h
+++ b/transfer/mpithreadcache.h
@@ -323,13 +323,15 @@ public:
 
 	virtual ~MPIThreadCache()
 	{
-		if (m_numaDomainId == 0 && m_blockInfoTag >= 0) {
+		if (m_numaDomainId == 0) {
 			delete [] m_cacheManager;
 
-			mpi::CommThread::commThread.unregisterReceiver(m_blockInfoTag);
-			mpi::CommThread::commThread.unregisterReceiver(m_transfererTag);
-			mpi::CommThread::commThread.unregisterReceiver(m_adderTag);
-			mpi::CommThread::commThread.unregisterReceiver(m_deleterTag);
+			if (m_blockInfoTag >= 0) {
+				mpi::CommThread::commThread.unregisterReceiver(m_blockInfoTag);
+				mpi::CommThread::commThread.unregisterReceiver(m_transfererTag);
+				mpi::CommThread::commThread.unregisterReceiver(m_adderTag);
+				mpi::CommThread::commThread.unregisterReceiver(m_deleterTag);
+			}
 
 			delete [] m_mutexes;
 			delete m_infoMutex;
@@ -390,34 +392,24 @@ public:
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
+		// Registering might fail (e.g. no communication thread),
+		// all NUMA domains have to return the error
+		asagi::Grid::Error registerErr = asagi::Grid::SUCCESS;
 		if (m_numaDomainId == 0) {
 			m_tagOffset = mpiComm.reserveTags(3);
 
 			m_infoMutex = new threads::Mutex();
 			m_blockMutex = new threads::Mutex();
 
-			// Initialize the receivers
-			err = mpi::CommThread::commThread
-				.registerReceiver(mpiComm.comm(), m_blockInfoResponder, m_blockInfoTag);
-			if (err != asagi::Grid::SUCCESS)
-				return err;
-
-			err = mpi::CommThread::commThread
-				.registerReceiver(mpiComm.comm(), m_blockTransferer, m_transfererTag);
-			if (err != asagi::Grid::SUCCESS)
-				return err;
-
-			err = mpi::CommThread::commThread
-				.registerReceiver(mpiComm.comm(), m_adder, m_adderTag);
-			if (err != asagi::Grid::SUCCESS)
-				return err;
-
-			err = mpi::CommThread::commThread
-				.registerReceiver(mpiComm.comm(), m_deleter, m_deleterTag);
-			if (err != asagi::Grid::SUCCESS)
-				return err;
+			registerErr = registerReceivers(mpiComm);
 		}
 
+		err = numaComm.broadcast(registerErr);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+		if (registerErr != asagi::Grid::SUCCESS)
+			return registerErr;
+
 		err = numaComm.broadcast(m_blockInfoTag);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
@@ -607,6 +599,30 @@ public:
 	}
 
 private:
+	/**
+	 * Registers all receivers
+	 */
+	asagi::Grid::Error registerReceivers(const mpi::MPIComm &mpiComm)
+	{
+		asagi::Grid::Error err = mpi::CommThread::commThread
+			.registerReceiver(mpiComm.comm(), m_blockInfoResponder, m_blockInfoTag);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		err = mpi::CommThread::commThread
+			.registerReceiver(mpiComm.comm(), m_blockTransferer, m_transfererTag);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		err = mpi::CommThread::commThread
+			.registerReceiver(mpiComm.comm(), m_adder, m_adderTag);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		return mpi::CommThread::commThread
+			.registerReceiver(mpiComm.comm(), m_deleter, m_deleterTag);
+	}
+
 	/**
 	 * Retrieves a global offset of the block
 	 *
diff --git a/transfer/mpithreadfull.h b/transfer/mpithreadfull.h
index 05da172..e28910e 100644
--- a/transfer/mpithreadfull.h
+++ b/transfer/mpithreadfull.h
@@ -108,8 +108,9 @@ public:
 
 	virtual ~MPIThreadFull()
 	{
-		if (m_numaDomainId == 0 && m_tag >= 0) {
-			mpi::CommThread::commThread.unregisterReceiver(m_tag);
+		if (m_numaDomainId == 0) {
+			if (m_tag >= 0)
+				mpi::CommThread::commThread.unregisterReceiver(m_tag);
 
 			delete m_sendRecvMutex;
 		}
@@ -148,12 +149,18 @@ public:
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
-		if (m_numaDomainId == 0) {
-			err = mpi::CommThread::commThread
+		// Registering might fail (e.g. no communication thread),
+		// all NUMA domains have to return the error
+		asagi::Grid::Error registerErr = asagi::Grid::SUCCESS;
+		if (m_numaDomainId == 0)
+			registerErr = mpi::CommThread::commThread
 				.registerReceiver(m_comm, *this, m_tag);
-			if (err != asagi::Grid::SUCCESS)
-				return err;
-		}
+
+		err = numaComm.broadcast(registerErr);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+		if (registerErr != asagi::Grid::SUCCESS)
+			return registerErr;
 
 		err = numaComm.broadcast(m_tag);
 		if (err != asagi::Grid::SUCCESS)
-- 
2.43.0


From f6b162bd64c375c43ab1b1ff8178a39a7637a79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 14/31] fix: initialize the dictionary locks before other
 processes can acquire them

---
 mpi/mutex.h            |  2 +-
 transfer/mpiwincache.h | 20 +++++++++++---------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/mpi/mutex.h b/mpi/mutex.h
index 3d7ec4e..016a541 100644
--- a/mpi/mutex.h
+++ b/mpi/mutex.h
@@ -110,7 +110,7 @@ public:
 	 *
 	 * @param lock Reference to the mutex memory location
 	 */
-	void initMutexMem(long& lock)
+	static void initMutexMem(long& lock)
 	{
 		lock = MUTEX_UNLOCKED;
 	}
diff --git a/transfer/mpiwincache.h b/transfer/mpiwincache.h
index 6dfd886..2597374 100644
--- a/transfer/mpiwincache.h
+++ b/transfer/mpiwincache.h
@@ -159,16 +159,23 @@ public:
 		m_typeSize = type.size();
 		m_mpiType = type.getMPIType();
 
+		// Setup the parent
+		MPICache<allocator::MPIAlloc, true>::init(cacheSize,
+				blockCount, mpiComm, numaComm);
+
+		// Initialize the mutex memory
+		for (unsigned long i = blockCount * m_numaDomainId;
+				i < blockCount * (m_numaDomainId+1); i++)
+			mpi::Mutex::initMutexMem(dictionary(i)[dictEntrySize()]);
+
 		// Broadcast the node global cache pointer
+		// This also makes sure that all domains initialized their dictionary
+		// before other processes can access it
 		m_cache = cache;
 		asagi::Grid::Error err = numaComm.broadcast(m_cache);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
-		// Setup the parent
-		MPICache<allocator::MPIAlloc, true>::init(cacheSize,
-				blockCount, mpiComm, numaComm);
-
 		if (m_numaDomainId == 0) {
 			std::lock_guard<mpi::Lock> lock(mpi::MPIComm::mpiLock);
 
@@ -219,11 +226,6 @@ public:
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
-		// Initialize the mutex memory
-		for (unsigned long i = blockCount * m_numaDomainId;
-				i < blockCount * (m_numaDomainId+1); i++)
-			m_mpiMutex->initMutexMem(dictionary(i)[dictEntrySize()]);
-
 		return asagi::Grid::SUCCESS;
 	}
 
-- 
2.43.0


From f8f1d7157caa5dba56e5592528e10c8cd294b0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 15/31] fix: accept negative values for TIME_DIMENSION and
 CACHE_HAND_SPREAD

---
 grid/grid.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/grid/grid.cpp b/grid/grid.cpp
index 5eef5ee..0fb2d58 100644
--- a/grid/grid.cpp
+++ b/grid/grid.cpp
@@ -203,6 +203,7 @@ void grid::Grid::setParam(const char* name, const char* value, unsigned int leve
 	// Convert non name values to upper case
 	std::string v = value;
 	if (n != "VARIABLE"
+			&& n != "TIME_DIMENSION" && n != "CACHE_HAND_SPREAD" // may be negative
 			&& !utils::StringUtils::startsWith(n, "BLOCK_SIZE_")) {
 		utils::StringUtils::toUpper(v);
 		std::replace(v.begin(), v.end(), '-', '_');
-- 
2.43.0


From 09ce71356eab6699c335c7a8f61f3ee394304a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 16/31] fix: handle spurious wakeups in the barrier

---
 threads/sync.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/threads/sync.h b/threads/sync.h
index b523241..e6e7e08 100644
--- a/threads/sync.h
+++ b/threads/sync.h
@@ -108,7 +108,7 @@ public:
 	{
 		if (!pthread_mutex_lock(&m_mutex))
 
-		if (m_finishing) {
+		while (m_finishing) {
 			if (pthread_cond_wait(&m_finishCondition, &m_mutex))
 				return false;
 		}
@@ -139,14 +139,16 @@ public:
 				return false;
 			}
 		} else {
-			if (pthread_cond_wait(&m_condition, &m_mutex) != 0) {
-				pthread_mutex_unlock(&m_mutex);
-				return false;
+			while (!m_finishing) {
+				if (pthread_cond_wait(&m_condition, &m_mutex) != 0) {
+					pthread_mutex_unlock(&m_mutex);
+					return false;
+				}
 			}
 		}
 
 		// If this is a last, wait for all other threads
-		if (last && m_syncedThreads > m_lastThreads) {
+		while (last && m_syncedThreads > m_lastThreads) {
 			if (pthread_cond_wait(&m_lastCondition, &m_mutex) != 0) {
 				pthread_mutex_unlock(&m_mutex);
 				return false;
-- 
2.43.0


From eb658316ceeff8cfb77befa45d01c232eeb2d7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 17/31] fix: use the same error codes in the C and the C++
 interface

---
 include/asagi.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/asagi.h b/include/asagi.h
index c9a6757..8b9de1e 100644
--- a/include/asagi.h
+++ b/include/asagi.h
@@ -438,7 +438,6 @@ typedef enum {
 	ASAGI_VAR_NOT_FOUND,
 	ASAGI_WRONG_SIZE,
 	ASAGI_UNSUPPORTED_DIMENSIONS,
-	ASAGI_MULTIPLE_TOPGRIDS,
 	ASAGI_INVALID_VAR_SIZE
 } asagi_error;
 #endif
-- 
2.43.0


From 96b021b8054ec110067136d762c77d06c6be7f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 18/31] fix: do not look up Fortran handles while the table is
 modified

---
 fortran/pointerarray.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fortran/pointerarray.h b/fortran/pointerarray.h
index 97d6d18..3e76d19 100644
--- a/fortran/pointerarray.h
+++ b/fortran/pointerarray.h
@@ -63,7 +63,7 @@ private:
 	/**
 	 * Lock, we use to make sure only one thread at a time adds a pointer
 	 */
-	threads::Mutex m_lock;
+	mutable threads::Mutex m_lock;
 public:
 	/**
 	 * Add a new pointer to the map
@@ -85,6 +85,9 @@ public:
 	 */
 	T* get(int i) const
 	{
+		// Another thread might currently add a pointer
+		std::lock_guard<threads::Mutex> lock(m_lock);
+
 		assert(i >= 0 &&
 			static_cast<unsigned int>(i) < m_pointers.size());
 		
@@ -96,6 +99,8 @@ public:
 	 */
 	void remove(int i)
 	{
+		std::lock_guard<threads::Mutex> lock(m_lock);
+
 		assert(i >= 0 &&
 			static_cast<unsigned int>(i) < m_pointers.size());
 		
-- 
2.43.0


From ad68ed09464e34ded29d5360b61a2a30ce022172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 19/31] fix: do not write the whole array or struct into a
 scalar

---
 types/arraytype.h  | 3 +++
 types/structtype.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/types/arraytype.h b/types/arraytype.h
index 5cfc734..76b1ced 100644
--- a/types/arraytype.h
+++ b/types/arraytype.h
@@ -143,6 +143,9 @@ public:
 		file.getBlock<void>(buf, offset, size);
 	}
 
+	// Scalar functions return the first element
+	using BasicType<T>::convert;
+
 	/**
 	 * @copydoc BasicType::convert(const void*, void*)
 	 */
diff --git a/types/structtype.h b/types/structtype.h
index ee5cb20..5b10c02 100644
--- a/types/structtype.h
+++ b/types/structtype.h
@@ -214,6 +214,9 @@ public:
 		file.getBlock<void>(buf, offset, size);
 	}
 
+	// Scalar functions return the first element
+	using BasicType<T>::convert;
+
 	/**
 	 * @copydoc BasicType::convert(const void*, void*)
 	 */
-- 
2.43.0


From e81a80d9ee3aa0d6636aaf3f991f70451433de4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:24 +0000
Subject: [PATCH 20/31] fix: wait for the MPI type of arrays and structs

---
 types/arraytype.h  | 8 ++------
 types/structtype.h | 7 ++-----
 2 files changed, 4 insertions(+), 11 deletions(-)

diff --git a/types/arraytype.h b/types/arraytype.h
index 76b1ced..97859a6 100644
--- a/types/arraytype.h
+++ b/types/arraytype.h
@@ -94,14 +94,12 @@ public:
 
 		unsigned int arraySize = file.getVarSize() / sizeof(T);
 
-		// Lock the array size
-		m_lock.lock();
+		// Lock the array size and the MPI type
+		std::lock_guard<threads::Mutex> lock(m_lock);
 
 		if (m_arraySize == 0) {
 			m_arraySize = arraySize;
 
-			m_lock.unlock();
-
 #ifndef ASAGI_NOMPI
 			// Create the mpi datatype
 			if (MPI_Type_contiguous(m_arraySize, BasicType<T>::getMPIType(),
@@ -111,8 +109,6 @@ public:
 				return asagi::Grid::MPI_ERROR;
 #endif // ASAGI_NOMPI
 		} else {
-			std::lock_guard<threads::Mutex> lock(m_lock, std::adopt_lock);
-
 			if (arraySize != m_arraySize)
 				return asagi::Grid::WRONG_SIZE;
 		}
diff --git a/types/structtype.h b/types/structtype.h
index 5b10c02..dda96ce 100644
--- a/types/structtype.h
+++ b/types/structtype.h
@@ -144,13 +144,12 @@ public:
 	{
 		unsigned int size = file.getVarSize();
 
-		m_lock.lock();
+		// Lock the size and the MPI type
+		std::lock_guard<threads::Mutex> lock(m_lock);
 
 		if (m_size == 0) {
 			m_size = size;
 
-			m_lock.unlock();
-
 #ifndef ASAGI_NOMPI
 			MPI_Datatype tmpType;
 
@@ -182,8 +181,6 @@ public:
 			m_types = 0L;
 #endif // ASAGI_NOMPI
 		} else {
-			std::lock_guard<threads::Mutex> lock(m_lock, std::adopt_lock);
-
 			if (size != m_size)
 				return asagi::Grid::WRONG_SIZE;
 		}
-- 
2.43.0


From 7f67785654801ca421cb50838abafd6df35695b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:24 +0000
Subject: [PATCH 21/31] fix: protect all MPI calls of a grid with the MPI lock

---
 mpi/mpicomm.h      | 1 +
 types/arraytype.h  | 7 ++++++-
 types/structtype.h | 7 ++++++-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/mpi/mpicomm.h b/mpi/mpicomm.h
index f6d8d48..c8ebe31 100644
--- a/mpi/mpicomm.h
+++ b/mpi/mpicomm.h
@@ -147,6 +147,7 @@ public:
 	 */
 	void barrier() const
 	{
+		std::lock_guard<Lock> lock(mpiLock);
 		MPI_Barrier(m_comm);
 	}
 
diff --git a/types/arraytype.h b/types/arraytype.h
index 97859a6..d34fa05 100644
--- a/types/arraytype.h
+++ b/types/arraytype.h
@@ -44,6 +44,7 @@
 
 #include "basictype.h"
 #include "io/netcdfreader.h"
+#include "mpi/mpicomm.h"
 #include "threads/mutex.h"
 
 namespace types {
@@ -79,8 +80,10 @@ public:
 	virtual ~ArrayType()
 	{
 #ifndef ASAGI_NOMPI
-		if (m_mpiType != MPI_DATATYPE_NULL)
+		if (m_mpiType != MPI_DATATYPE_NULL) {
+			std::lock_guard<mpi::Lock> lock(mpi::MPIComm::mpiLock);
 			MPI_Type_free(&m_mpiType);
+		}
 #endif // ASAGI_NOMPI
 	}
 
@@ -101,6 +104,8 @@ public:
 			m_arraySize = arraySize;
 
 #ifndef ASAGI_NOMPI
+			std::lock_guard<mpi::Lock> mpiLock(mpi::MPIComm::mpiLock);
+
 			// Create the mpi datatype
 			if (MPI_Type_contiguous(m_arraySize, BasicType<T>::getMPIType(),
 					&m_mpiType) != MPI_SUCCESS)
diff --git a/types/structtype.h b/types/structtype.h
index dda96ce..65f062f 100644
--- a/types/structtype.h
+++ b/types/structtype.h
@@ -43,6 +43,7 @@
 #include <mutex>
 
 #include "basictype.h"
+#include "mpi/mpicomm.h"
 #include "threads/mutex.h"
 
 namespace types {
@@ -128,8 +129,10 @@ public:
 	virtual ~StructType()
 	{
 #ifndef ASAGI_NOMPI
-		if (m_mpiType != MPI_DATATYPE_NULL)
+		if (m_mpiType != MPI_DATATYPE_NULL) {
+			std::lock_guard<mpi::Lock> lock(mpi::MPIComm::mpiLock);
 			MPI_Type_free(&m_mpiType);
+		}
 
 		delete [] m_blockLength;
 		delete [] m_displacements;
@@ -151,6 +154,8 @@ public:
 			m_size = size;
 
 #ifndef ASAGI_NOMPI
+			std::lock_guard<mpi::Lock> mpiLock(mpi::MPIComm::mpiLock);
+
 			MPI_Datatype tmpType;
 
 			// Create the mpi datatype
-- 
2.43.0


From cfc291bd69b0263def1d5c15051a0f3e07bf7a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:46 +0000
Subject: [PATCH 22/31] fix: do not look up receivers while the table is
 modified

---
 mpi/commthread.h | 52 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/mpi/commthread.h b/mpi/commthread.h
index 16b83ac..f77d9a1 100644
--- a/mpi/commthread.h
+++ b/mpi/commthread.h
@@ -113,6 +113,14 @@ private:
 	/** Lock used for thread safety */
 	threads::Mutex m_lock;
 
+	/**
+	 * Lock for the map of receivers
+	 *
+	 * ({@link m_lock} can not be used by the communication thread because it is
+	 * held while waiting for the communication thread)
+	 */
+	threads::Mutex m_receiverLock;
+
 private:
 	CommThread()
 		: m_comm(MPI_COMM_NULL), m_group(MPI_GROUP_NULL), m_rank(0),
@@ -236,7 +244,9 @@ public:
 		ReceiverDetail detail;
 		detail.recv = &receiver;
 		MPI_Comm_group(comm, &detail.group);
+		m_receiverLock.lock();
 		m_receiver[tag] = detail;
+		m_receiverLock.unlock();
 
 		// Other processes must not send messages before the receiver is registered
 		if (MPI_Barrier(comm) != MPI_SUCCESS)
@@ -268,17 +278,34 @@ public:
 	 */
 	void send(int tag, int recv, message_t data)
 	{
-		std::unordered_map<int, ReceiverDetail>::const_iterator it = m_receiver.find(tag);
-		if (it == m_receiver.end())
+		ReceiverDetail detail;
+		if (!findReceiver(tag, detail))
 			logWarning() << "ASAGI: Sending message from unregistered tag" << tag;
 		else {
 			int recvRank;
-			MPI_Group_translate_ranks(it->second.group, 1, &recv, m_group, &recvRank);
+			MPI_Group_translate_ranks(detail.group, 1, &recv, m_group, &recvRank);
 			MPI_Send(&data, 1, MPI_MESSAGE, recvRank, tag, m_comm);
 		}
 	}
 
 private:
+	/**
+	 * @param tag The tag identifying the receiver
+	 * @param[out] detail The description of the receiver
+	 * @return False if no receiver is registered for the tag
+	 */
+	bool findReceiver(int tag, ReceiverDetail &detail)
+	{
+		std::lock_guard<threads::Mutex> lock(m_receiverLock);
+
+		std::unordered_map<int, ReceiverDetail>::const_iterator it = m_receiver.find(tag);
+		if (it == m_receiver.end())
+			return false;
+
+		detail = it->second;
+		return true;
+	}
+
 	/**
 	 * Main function of the communication thread
 	 */
@@ -301,22 +328,25 @@ private:
 				if (status.MPI_SOURCE != commThread.m_rank)
 					logError() << "Rank is not allowed to send unregister command";
 
-				std::unordered_map<int, ReceiverDetail>::iterator it = commThread.m_receiver.find(data);
-				if (it != commThread.m_receiver.end()) {
-					MPI_Group_free(&it->second.group);
-					commThread.m_receiver.erase(it);
+				ReceiverDetail detail;
+				if (commThread.findReceiver(data, detail)) {
+					commThread.m_receiverLock.lock();
+					commThread.m_receiver.erase(data);
+					commThread.m_receiverLock.unlock();
+
+					MPI_Group_free(&detail.group);
 				}
 				commThread.m_lock.unlock(); // Release the lock from unregisterReceiver
 				continue;
 			}
 
-			std::unordered_map<int, ReceiverDetail>::const_iterator it = commThread.m_receiver.find(status.MPI_TAG);
-			if (it == commThread.m_receiver.end())
+			ReceiverDetail detail;
+			if (!commThread.findReceiver(status.MPI_TAG, detail))
 				logWarning() << "ASAGI: Received unregistered message with tag" << status.MPI_TAG;
 			else {
 				int senderRank;
-				MPI_Group_translate_ranks(commThread.m_group, 1, &status.MPI_SOURCE, it->second.group, &senderRank);
-				it->second.recv->recv(senderRank, data);
+				MPI_Group_translate_ranks(commThread.m_group, 1, &status.MPI_SOURCE, detail.group, &senderRank);
+				detail.recv->recv(senderRank, data);
 			}
 		}
 
-- 
2.43.0


From 1ec46a01d11a5b57dceade90a2293fe557c1cbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:46 +0000
Subject: [PATCH 23/31] fix: do not use negative colors to compute the node
 local rank

---
 asagi.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asagi.cpp b/asagi.cpp
index 278648b..237d115 100644
--- a/asagi.cpp
+++ b/asagi.cpp
@@ -103,7 +103,8 @@ int asagi::Grid::nodeLocalRank(MPI_Comm comm)
 		s2 = (s2 + s1) % 65521;
 	}
 
-	uint32_t hash = (s2 << 16) | s1;
+	// The color for MPI_Comm_split has to be a non-negative integer
+	uint32_t hash = ((s2 << 16) | s1) & 0x7fffffff;
 	int rank;
 	mpiResult = MPI_Comm_rank(comm, &rank);
 	assert(mpiResult == MPI_SUCCESS);
-- 
2.43.0


From 166ebb273f415fde052c3e2c972dc21ba90958ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 24/31] fix: keep the other holders when an unknown holder is
 removed from the dictionary

---
 transfer/mpicache.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transfer/mpicache.h b/transfer/mpicache.h
index c715807..1c75c87 100644
--- a/transfer/mpicache.h
+++ b/transfer/mpicache.h
@@ -193,6 +193,10 @@ protected:
 				break;
 		}
 
+		if (i == m_dictEntrySize)
+			// The entry was already replaced by newer entries
+			return;
+
 		for (; i < m_dictEntrySize-1; i++)
 			dictEntry[i] = dictEntry[i+1];
 
-- 
2.43.0


From 16f84213868efa2deb26ad59de2b055f14b83aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:47 +0000
Subject: [PATCH 25/31] fix: do not wait forever for blocks in locked remote
 caches

---
 grid/level/cachedist.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/grid/level/cachedist.h b/grid/level/cachedist.h
index 7f185a4..1b95eb2 100644
--- a/grid/level/cachedist.h
+++ b/grid/level/cachedist.h
@@ -74,6 +74,9 @@ private:
 	/** Number of blocks in the cache */
 	unsigned int m_cacheSize;
 
+	/** Maximum number of tries to get a block from other ranks */
+	static const unsigned int MAX_TRIES = 8;
+
 public:
 	/**
 	 * @copydoc Cache::Cache
@@ -170,7 +173,10 @@ public:
 				// The communication thread uses error detection. Which means, a block
 				// might get deleted between startTransfer and transfer. In this case,
 				// retrying another MPI rank might be worthwhile.
+				// The number of retries is limited because a remote rank might not
+				// be able to send the block as long as it is waiting for our cache.
 
+				unsigned int tries = 0;
 				bool retry;
 				bool received = false;
 
@@ -188,7 +194,7 @@ public:
 						this->incCounter(perf::Counter::MPI);
 						received = true;
 					}
-				} while (retry);
+				} while (retry && ++tries < MAX_TRIES);
 
 				if (!received)
 					this->loadBlock(index, data);
-- 
2.43.0


From b934dd50999d810c51ee1b9ffe490d0a4583a03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 26/31] fix: do not access invalid memory for infinite
 coordinates

---
 grid/level/level.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/grid/level/level.h b/grid/level/level.h
index f0e8654..8fa15a9 100644
--- a/grid/level/level.h
+++ b/grid/level/level.h
@@ -358,12 +358,13 @@ protected:
 		for (int i = m_dims-1; i >= 0; i--) {
 			double x = round((pos[m_dims-i-1] - m_offset[i]) * m_scalingInv[i]);
 
-			if (x < 0 || x >= m_size[i]) {
+			// Also handles NaN (infinite coordinates in dimensions of size 1)
+			if (!(x >= 0 && x < m_size[i])) {
 				logWarning() << "ASAGI: Coordinate in dimension" << (m_dims-i-1) << " is out of range. Fixing.";
-				if (x < 0)
-					x = 0;
-				else
+				if (x >= m_size[i])
 					x = m_size[i]-1;
+				else
+					x = 0;
 			}
 
 			index[i] = x;
-- 
2.43.0


From a3e711703cbf29b344d8e3fdbc30a73a01dd7a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:56 +0000
Subject: [PATCH 27/31] fix: leave no freed communicator behind when setComm
 fails

---
 mpi/mpicomm.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/mpi/mpicomm.h b/mpi/mpicomm.h
index c8ebe31..feb76d4 100644
--- a/mpi/mpicomm.h
+++ b/mpi/mpicomm.h
@@ -107,8 +107,10 @@ public:
 
 		freeComm();
 
-		if (MPI_Comm_dup(comm, &m_comm) != MPI_SUCCESS)
+		MPI_Comm newComm;
+		if (MPI_Comm_dup(comm, &newComm) != MPI_SUCCESS)
 			return asagi::Grid::MPI_ERROR;
+		m_comm = newComm;
 
 		if (MPI_Comm_rank(m_comm, &m_rank) != MPI_SUCCESS)
 			return asagi::Grid::MPI_ERROR;
@@ -172,9 +174,17 @@ private:
 	 */
 	int freeComm()
 	{
-		if (m_comm != MPI_COMM_SELF)
-			return MPI_Comm_free(&m_comm);
-		return MPI_SUCCESS;
+		if (m_comm == MPI_COMM_SELF)
+			return MPI_SUCCESS;
+
+		int mpiResult = MPI_Comm_free(&m_comm);
+
+		// Do not use the communicator anymore, even if no new one can be created
+		m_comm = MPI_COMM_SELF;
+		m_rank = 0;
+		m_size = 1;
+
+		return mpiResult;
 	}
 
 public:
-- 
2.43.0


From acc9cfc8cc98d9bcba77a0e7bf3560e1d58e52bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:56 +0000
Subject: [PATCH 28/31] fix: return failing MPI calls of open in all NUMA
 domains

---
 numa/numacomm.h           | 18 ++++++++++++------
 transfer/mpicache.h       | 12 ++++++++++--
 transfer/mpithreadcache.h |  6 ++++--
 transfer/mpiwincache.h    | 22 +++++++++++++++++-----
 transfer/mpiwinfull.h     | 20 ++++++++++++++++----
 types/arraytype.h         |  6 +++---
 types/structtype.h        |  4 ++--
 7 files changed, 64 insertions(+), 24 deletions(-)

diff --git a/numa/numacomm.h b/numa/numacomm.h
index 4f67bb8..b81c4ca 100644
--- a/numa/numacomm.h
+++ b/numa/numacomm.h
@@ -131,15 +131,21 @@ public:
 	template<class Allocator, typename T>
 	asagi::Grid::Error allocate(unsigned long size, T* &data)
 	{
-		if (domainId() == 0) {
+		asagi::Grid::Error allocErr = asagi::Grid::SUCCESS;
+
+		if (domainId() == 0)
 			// Allocate the memory with the master thread
-			asagi::Grid::Error err = Allocator::allocate(size * totalDomains(), data);
-			if (err != asagi::Grid::SUCCESS)
-				return err;
-		}
+			allocErr = Allocator::allocate(size * totalDomains(), data);
+
+		// All domains have to return the error
+		asagi::Grid::Error err = broadcast(allocErr);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+		if (allocErr != asagi::Grid::SUCCESS)
+			return allocErr;
 
 		// Broadcast the pointer to all domains
-		asagi::Grid::Error err = broadcast(data);
+		err = broadcast(data);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
diff --git a/transfer/mpicache.h b/transfer/mpicache.h
index 1c75c87..80e8ff7 100644
--- a/transfer/mpicache.h
+++ b/transfer/mpicache.h
@@ -101,13 +101,21 @@ protected:
 		m_rankCacheSize = cacheSize * numaComm.totalDomains();
 
 		// Allocate the memory and broadcast the pointer
+		asagi::Grid::Error allocErr = asagi::Grid::SUCCESS;
 		if (m_numaDomainId == 0) {
-			Allocator::allocate(
+			allocErr = Allocator::allocate(
 					blockCount * totalDictEntrySize() * numaComm.totalDomains(),
 					m_dictionary);
 		}
 
-		asagi::Grid::Error err = numaComm.broadcast(m_dictionary);
+		// All domains have to return the error
+		asagi::Grid::Error err = numaComm.broadcast(allocErr);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+		if (allocErr != asagi::Grid::SUCCESS)
+			return allocErr;
+
+		err = numaComm.broadcast(m_dictionary);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
diff --git a/transfer/mpithreadcache.h b/transfer/mpithreadcache.h
index 34618ac..49932b6 100644
--- a/transfer/mpithreadcache.h
+++ b/transfer/mpithreadcache.h
@@ -365,8 +365,10 @@ public:
 		m_blockSize = blockSize;
 		m_mpiType = type.getMPIType();
 
-		MPICache<allocator::Default, false>::init(cacheSize,
+		asagi::Grid::Error err = MPICache<allocator::Default, false>::init(cacheSize,
 				blockCount, mpiComm, numaComm);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
 
 		if (m_numaDomainId == 0) {
 			m_cacheManager = new cache::CacheManager*[m_numaDomainSize];
@@ -382,7 +384,7 @@ public:
 
 		// Remote requests have to be expected as soon as the receivers are registered.
 		// Wait until all NUMA domains are initialized.
-		asagi::Grid::Error err = numaComm.broadcast(m_cacheManager);
+		err = numaComm.broadcast(m_cacheManager);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
diff --git a/transfer/mpiwincache.h b/transfer/mpiwincache.h
index 2597374..c2d6663 100644
--- a/transfer/mpiwincache.h
+++ b/transfer/mpiwincache.h
@@ -160,8 +160,10 @@ public:
 		m_mpiType = type.getMPIType();
 
 		// Setup the parent
-		MPICache<allocator::MPIAlloc, true>::init(cacheSize,
+		asagi::Grid::Error err = MPICache<allocator::MPIAlloc, true>::init(cacheSize,
 				blockCount, mpiComm, numaComm);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
 
 		// Initialize the mutex memory
 		for (unsigned long i = blockCount * m_numaDomainId;
@@ -172,10 +174,14 @@ public:
 		// This also makes sure that all domains initialized their dictionary
 		// before other processes can access it
 		m_cache = cache;
-		asagi::Grid::Error err = numaComm.broadcast(m_cache);
+		err = numaComm.broadcast(m_cache);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
+		// Creating the windows might fail,
+		// all NUMA domains have to return the error
+		asagi::Grid::Error winErr = asagi::Grid::SUCCESS;
+
 		if (m_numaDomainId == 0) {
 			std::lock_guard<mpi::Lock> lock(mpi::MPIComm::mpiLock);
 
@@ -187,7 +193,7 @@ public:
 				MPI_INFO_NULL,
 				mpiComm.comm(),
 				&m_dictWin) != MPI_SUCCESS)
-				return asagi::Grid::MPI_ERROR;
+				winErr = asagi::Grid::MPI_ERROR;
 
 			// Create the MPI mutex
 			m_mpiMutex = new mpi::Mutex();
@@ -197,15 +203,21 @@ public:
 			m_cacheWinMutex = new threads::Mutex();
 
 			// Create the window to access the cache
-			if (MPI_Win_create(cache,
+			if (winErr == asagi::Grid::SUCCESS && MPI_Win_create(cache,
 				m_typeSize * blockSize * rankCacheSize(),
 				m_typeSize,
 				MPI_INFO_NULL,
 				mpiComm.comm(),
 				&m_cacheWin) != MPI_SUCCESS)
-				return asagi::Grid::MPI_ERROR;
+				winErr = asagi::Grid::MPI_ERROR;
 		}
 
+		err = numaComm.broadcast(winErr);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+		if (winErr != asagi::Grid::SUCCESS)
+			return winErr;
+
 		err = numaComm.broadcast(m_dictWinMutex);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
diff --git a/transfer/mpiwinfull.h b/transfer/mpiwinfull.h
index b8df80d..57d6b6d 100644
--- a/transfer/mpiwinfull.h
+++ b/transfer/mpiwinfull.h
@@ -94,11 +94,13 @@ public:
 
 	virtual ~MPIWinFull()
 	{
-		if (m_numaDomainId == 0 && m_window != MPI_WIN_NULL) {
+		if (m_numaDomainId == 0) {
 			delete m_winMutex;
 
-			std::lock_guard<mpi::Lock> lock(mpi::MPIComm::mpiLock);
-			MPI_Win_free(&m_window);
+			if (m_window != MPI_WIN_NULL) {
+				std::lock_guard<mpi::Lock> lock(mpi::MPIComm::mpiLock);
+				MPI_Win_free(&m_window);
+			}
 		}
 	}
 
@@ -132,6 +134,10 @@ public:
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
+		// Creating the window might fail,
+		// all NUMA domains have to return the error
+		asagi::Grid::Error winErr = asagi::Grid::SUCCESS;
+
 		if (m_numaDomainId == 0) {
 			unsigned int typeSize = type.size();
 
@@ -144,9 +150,15 @@ public:
 					MPI_INFO_NULL,
 					mpiComm.comm(),
 					&m_window) != MPI_SUCCESS)
-				return asagi::Grid::MPI_ERROR;
+				winErr = asagi::Grid::MPI_ERROR;
 		}
 
+		err = numaComm.broadcast(winErr);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+		if (winErr != asagi::Grid::SUCCESS)
+			return winErr;
+
 		err = numaComm.broadcast(m_window);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
diff --git a/types/arraytype.h b/types/arraytype.h
index d34fa05..a7543ab 100644
--- a/types/arraytype.h
+++ b/types/arraytype.h
@@ -101,18 +101,18 @@ public:
 		std::lock_guard<threads::Mutex> lock(m_lock);
 
 		if (m_arraySize == 0) {
-			m_arraySize = arraySize;
-
 #ifndef ASAGI_NOMPI
 			std::lock_guard<mpi::Lock> mpiLock(mpi::MPIComm::mpiLock);
 
 			// Create the mpi datatype
-			if (MPI_Type_contiguous(m_arraySize, BasicType<T>::getMPIType(),
+			if (MPI_Type_contiguous(arraySize, BasicType<T>::getMPIType(),
 					&m_mpiType) != MPI_SUCCESS)
 				return asagi::Grid::MPI_ERROR;
 			if (MPI_Type_commit(&m_mpiType) != MPI_SUCCESS)
 				return asagi::Grid::MPI_ERROR;
 #endif // ASAGI_NOMPI
+
+			m_arraySize = arraySize;
 		} else {
 			if (arraySize != m_arraySize)
 				return asagi::Grid::WRONG_SIZE;
diff --git a/types/structtype.h b/types/structtype.h
index 65f062f..57f765c 100644
--- a/types/structtype.h
+++ b/types/structtype.h
@@ -151,8 +151,6 @@ public:
 		std::lock_guard<threads::Mutex> lock(m_lock);
 
 		if (m_size == 0) {
-			m_size = size;
-
 #ifndef ASAGI_NOMPI
 			std::lock_guard<mpi::Lock> mpiLock(mpi::MPIComm::mpiLock);
 
@@ -185,6 +183,8 @@ public:
 			m_displacements = 0L;
 			m_types = 0L;
 #endif // ASAGI_NOMPI
+
+			m_size = size;
 		} else {
 			if (size != m_size)
 				return asagi::Grid::WRONG_SIZE;
-- 
2.43.0


From 838fd84d95c3a12ff441bc691a5db4efe864c913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:11 +0000
Subject: [PATCH 29/31] fix: return a failing allocation of the block cache in
 all NUMA domains

---
 grid/level/fulldist.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/grid/level/fulldist.h b/grid/level/fulldist.h
index 7536f77..415ea74 100644
--- a/grid/level/fulldist.h
+++ b/grid/level/fulldist.h
@@ -90,7 +90,8 @@ public:
 
 	virtual ~FullDist()
 	{
-		Allocator::free(m_cache);
+		if (&this->numa() && this->numaDomainId() == 0)
+			this->numa().template free<Allocator>(m_cache);
 	}
 
 	/**
@@ -114,7 +115,7 @@ public:
 			return err;
 
 		// Initialize the cache
-		err = Allocator::allocate(
+		err = this->numa().template allocate<Allocator>(
 				this->typeSize() * this->totalBlockSize() * cacheSize,
 				m_cache);
 		if (err != asagi::Grid::SUCCESS)
-- 
2.43.0


From 7569e07b229106a85a477c3a35f11b07fc8fca76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:38 +0000
Subject: [PATCH 30/31] fix: free the MPI types if they cannot be created or
 committed

---
 types/arraytype.h  |  4 +++-
 types/structtype.h | 10 +++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/types/arraytype.h b/types/arraytype.h
index a7543ab..9b64faf 100644
--- a/types/arraytype.h
+++ b/types/arraytype.h
@@ -108,8 +108,10 @@ public:
 			if (MPI_Type_contiguous(arraySize, BasicType<T>::getMPIType(),
 					&m_mpiType) != MPI_SUCCESS)
 				return asagi::Grid::MPI_ERROR;
-			if (MPI_Type_commit(&m_mpiType) != MPI_SUCCESS)
+			if (MPI_Type_commit(&m_mpiType) != MPI_SUCCESS) {
+				MPI_Type_free(&m_mpiType);
 				return asagi::Grid::MPI_ERROR;
+			}
 #endif // ASAGI_NOMPI
 
 			m_arraySize = arraySize;
diff --git a/types/structtype.h b/types/structtype.h
index 57f765c..2e0881a 100644
--- a/types/structtype.h
+++ b/types/structtype.h
@@ -164,15 +164,15 @@ public:
 					m_types,
 					&tmpType) != MPI_SUCCESS)
 				return asagi::Grid::MPI_ERROR;
-			if (MPI_Type_create_resized(tmpType, 0, size, &m_mpiType)
-					!= MPI_SUCCESS)
-				return asagi::Grid::MPI_ERROR;
+			int mpiResult = MPI_Type_create_resized(tmpType, 0, size, &m_mpiType);
 
-			if (MPI_Type_commit(&m_mpiType) != MPI_SUCCESS)
+			if (MPI_Type_free(&tmpType) != MPI_SUCCESS || mpiResult != MPI_SUCCESS)
 				return asagi::Grid::MPI_ERROR;
 
-			if (MPI_Type_free(&tmpType) != MPI_SUCCESS)
+			if (MPI_Type_commit(&m_mpiType) != MPI_SUCCESS) {
+				MPI_Type_free(&m_mpiType);
 				return asagi::Grid::MPI_ERROR;
+			}
 
 			// We do not need them anymore
 			delete [] m_blockLength;
-- 
2.43.0


From 54db6525a2ff32e6e75fcf2398dcf7a3d5a84918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:50 +0000
Subject: [PATCH 31/31] fix: return errors of opening the file in all NUMA
 domains

---
 grid/level/level.h | 17 +++++++++++++++++
 numa/numacomm.h    | 25 +++++++++++++++++++++++++
 2 files changed, 42 insertions(+)

diff --git a/grid/level/level.h b/grid/level/level.h
index 8fa15a9..429e7b9 100644
--- a/grid/level/level.h
+++ b/grid/level/level.h
@@ -216,6 +216,22 @@ protected:
 		if (m_numaComm == 0L)
 			return asagi::Grid::THREAD_ERROR;
 
+		// Opening the file might fail in some NUMA domains only,
+		// all of them have to return the error
+		return m_numaComm->firstError(openFile(filename, varname, valuePos));
+	}
+
+private:
+	/**
+	 * Opens the file and reads the header information
+	 *
+	 * @see open
+	 */
+	asagi::Grid::Error openFile(
+			const char* filename,
+			const char* varname,
+			grid::ValuePosition valuePos)
+	{
 		asagi::Grid::Error err;
 
 		// Open NetCDF file
@@ -270,6 +286,7 @@ protected:
 		return asagi::Grid::SUCCESS;
 	}
 
+protected:
 	/**
 	 * @return The MPI communicator
 	 */
diff --git a/numa/numacomm.h b/numa/numacomm.h
index b81c4ca..c867264 100644
--- a/numa/numacomm.h
+++ b/numa/numacomm.h
@@ -121,6 +121,31 @@ public:
 		return asagi::Grid::SUCCESS;
 	}
 
+	/**
+	 * Collect the errors of all domains. This is a collective
+	 * operation among the NUMA masters.
+	 *
+	 * @param domainErr The error of this domain
+	 * @return The error of the first domain that failed; the same on all
+	 *  domains
+	 */
+	asagi::Grid::Error firstError(asagi::Grid::Error domainErr)
+	{
+		asagi::Grid::Error first = asagi::Grid::SUCCESS;
+
+		for (unsigned int i = 0; i < totalDomains(); i++) {
+			asagi::Grid::Error value = domainErr;
+			asagi::Grid::Error err = broadcast(value, i);
+			if (err != asagi::Grid::SUCCESS)
+				return err;
+
+			if (first == asagi::Grid::SUCCESS)
+				first = value;
+		}
+
+		return first;
+	}
+
 	/**
 	 * Allocates memory for all NUMA domains. This is a collective
 	 * operation among the NUMA masters.
-- 
2.43.0

