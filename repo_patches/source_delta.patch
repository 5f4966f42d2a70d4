From c1e046a9b52dd1326b5a417d22f3b07df000bac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 01/84] fix: build each Latch from its own mutex attributes

Latch::Latch() published the 'initialised' flag before the shared
attributes were set up, so a Latch constructed by a second thread at the
same moment was initialised from unset attributes (and then fails the
assertion in leave()).
---
 include/lockfree.h | 15 +++++----------
 src/lockfree.cpp   |  5 +----
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/include/lockfree.h b/include/lockfree.h
index 0c92b7f..6bb92fd 100644
--- a/include/lockfree.h
+++ b/include/lockfree.h
@@ -39,9 +39,6 @@ public:
 	// The PTHREADs implementation allows us to use these with pthread condition variables
 	pthread_mutex_t	mutex;
 
-	static	std::atomic<bool>	initialised;
-	static	pthread_mutexattr_t	attr;
-
 #else
 	// On Windows, condition variables are based on system events so we can do this using atomic
 	std::atomic<ThreadId>	mutex;
@@ -60,14 +57,12 @@ public:
 #if	defined(HAVE_PTHREADS)
 Latch::Latch()
 {
-	if (!initialised)
-	{
-		initialised = true;
-		pthread_mutexattr_init(&Latch::attr);
-		pthread_mutexattr_settype(&Latch::attr, PTHREAD_MUTEX_ERRORCHECK);
-	}
-
+	// Don't share the attributes: Latches may be constructed by many threads at once
+	pthread_mutexattr_t	attr;
+	pthread_mutexattr_init(&attr);
+	pthread_mutexattr_settype(&attr, PTHREAD_MUTEX_ERRORCHECK);
 	pthread_mutex_init(&mutex, &attr);
+	pthread_mutexattr_destroy(&attr);
 }
 
 Latch::~Latch()
diff --git a/src/lockfree.cpp b/src/lockfree.cpp
index 3badcf0..586f2d6 100644
--- a/src/lockfree.cpp
+++ b/src/lockfree.cpp
@@ -6,10 +6,7 @@
 #include	<assert.h>
 #include	<lockfree.h>
 
-#if	defined(HAVE_PTHREADS)
-pthread_mutexattr_t	Latch::attr;
-std::atomic<bool>	Latch::initialised;
-#else
+#if	!defined(HAVE_PTHREADS)
 
 int			Latch::num_cores;
 
-- 
2.43.0


From c1e4e2ffba9f83cf52fd721732a0bd6f11f3547c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 02/84] fix: timed Condition::wait waits for the requested time

The relative delay was passed to pthread_cond_timedwait as an absolute
time, so every timed wait returned at once, and the delay argument was
not reduced by the time that had passed.
---
 src/condition.cpp | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/condition.cpp b/src/condition.cpp
index 13adb95..283b10a 100644
--- a/src/condition.cpp
+++ b/src/condition.cpp
@@ -6,10 +6,20 @@
  * continued, any thread that tries to signal it again will block.
  */
 #include	<unistd.h>
+#include	<time.h>
 
 #include	<thread.h>
 #include	<condition.h>
 
+#if	defined(HAVE_PTHREADS)
+// Timed waits should not be affected by changes to the wall clock
+#if	defined(__APPLE__)
+#define	CONDITION_CLOCK	CLOCK_REALTIME
+#else
+#define	CONDITION_CLOCK	CLOCK_MONOTONIC
+#endif
+#endif
+
 Condition::~Condition()
 {
 #if	defined(HAVE_PTHREADS)
@@ -33,7 +43,13 @@ Condition::Condition()
 #endif
 {
 #if	defined(HAVE_PTHREADS)
-	pthread_cond_init(&cond, (pthread_condattr_t*)0);
+	pthread_condattr_t	attr;
+	pthread_condattr_init(&attr);
+#if	!defined(__APPLE__)
+	pthread_condattr_setclock(&attr, CONDITION_CLOCK);
+#endif
+	pthread_cond_init(&cond, &attr);
+	pthread_condattr_destroy(&attr);
 #elif	defined(MSW)
 	hEvent = CreateEventW(NULL, TRUE, FALSE, 0);
 	assert(hEvent);
@@ -145,17 +161,28 @@ Condition::wait(		// Wait for a ticket
 {
 #if	defined(HAVE_PTHREADS)
 	int		retcode;
-	struct timespec	ts;
-	ts.tv_sec = (unsigned long)timeout / 1000;
-	ts.tv_nsec = (unsigned long)timeout % 1000 * 1000000L;
+	struct timespec	ts;		// pthreads wants the time when the wait should end
+	if (timeout < 0)
+		timeout = 0;
+	clock_gettime(CONDITION_CLOCK, &ts);
+	ts.tv_sec += (unsigned long)timeout / 1000;
+	ts.tv_nsec += (unsigned long)timeout % 1000 * 1000000L;
+	if (ts.tv_nsec >= 1000000000L)
+	{
+		ts.tv_sec++;
+		ts.tv_nsec -= 1000000000L;
+	}
 	retcode = pthread_cond_timedwait(&cond, &user_latch->mutex, &ts);
 	if (retcode == ETIMEDOUT)
 	{
 		timeout = 0;
 	}
 	else
-	{
-		// REVISIT: Subtract elapsed time from timeout
+	{		// Calculate the remaining time, rounding up so a repeated wait isn't short
+		struct timespec	now;
+		clock_gettime(CONDITION_CLOCK, &now);
+		long long	left_ns = (long long)(ts.tv_sec - now.tv_sec) * 1000000000LL + (ts.tv_nsec - now.tv_nsec);
+		timeout = left_ns > 0 ? (long)((left_ns + 999999LL) / 1000000LL) : 0;
 	}
 #elif	defined(MSW)
 	YMDTimeC	start = YMDTimeC::now();
-- 
2.43.0


From 34de3119e4419dfb48fed981678de551207a154f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 03/84] fix: initialise a Thread's id and state, and change the
 state under the latch

Thread::Thread() left thread_id and state unset, so joinAny() could take a
thread that had not started yet for one that had ended, and ThreadProc set
the state while joinAny() was reading it.
---
 include/thread.h | 2 ++
 src/thread.cpp   | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/thread.h b/include/thread.h
index 2531cfe..92fac66 100644
--- a/include/thread.h
+++ b/include/thread.h
@@ -115,6 +115,8 @@ public:
 };
 
 Thread::Thread()
+: thread_id(0)
+, state(New)
 {
 #if	defined(HAVE_PTHREADS)
 	// pthread_create starts the thread immediately, before subclass construction has finished,
diff --git a/src/thread.cpp b/src/thread.cpp
index 417f4a1..4bd1c59 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -27,12 +27,12 @@ Thread::ThreadProc(void* _this)
 	// This code can be run *before* pthread_create has assigned the thread_id. Wait for it.
 	thread_latch.enter();
 	assert(t->id());
+	t->state = Started;
 	thread_latch.leave();
 #elif	defined(MSW)
 	assert(t->handle());
-#endif
-
 	t->state = Started;
+#endif
 
 #if	defined(HAVE_PTHREADS)
 	void*	ret = (void*)(long)t->run();
-- 
2.43.0


From 1c8e25dd2b7deca777800b607db536e88ea2eae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:40 +0000
Subject: [PATCH 04/84] fix: don't register a Thread that could not be started

resume() ignored a failing pthread_create and put the Thread in the map
under an undefined id, so joinAny() waited for it for ever.
---
 include/thread.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/thread.h b/include/thread.h
index 92fac66..5c7d1c8 100644
--- a/include/thread.h
+++ b/include/thread.h
@@ -177,9 +177,13 @@ Thread::resume()
 #if	defined(HAVE_PTHREADS)
 	thread_latch.enter();
 	int	code = pthread_create(&thread_id, (pthread_attr_t*)0, Thread::ThreadProc, this);
-	// if (!code) { Error(ERR_THREAD_CREATE, ...); }		// REVISIT: Report failure to start thread
-
-	threads.insert({thread_id, this});
+	if (code)
+	{		// if (code) { Error(ERR_THREAD_CREATE, ...); }		// REVISIT: Report failure to start thread
+		thread_id = 0;		// Not running, and never will be
+		state = Ended;
+	}
+	else
+		threads.insert({thread_id, this});
 	thread_latch.leave();
 #elif	defined(MSW)
 	if (thread_handle)
-- 
2.43.0


From 89632c627e772a45d05e9c9bc8105ef0980f93ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 05/84] fix: joinAny and join account for every thread exactly
 once

joinAny() returned null while one thread was still outstanding (it assumed
the main thread was in the map), could wait for ever when join() took the
last thread, and never released the system thread. join() released the
thread's id before removing it from the map, so a new thread with the same
id could be lost, and a later ~Thread could remove another thread's entry.
---
 include/thread.h |  2 +-
 src/thread.cpp   | 45 ++++++++++++++++++++++++++++++---------------
 2 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/include/thread.h b/include/thread.h
index 5c7d1c8..c0d4302 100644
--- a/include/thread.h
+++ b/include/thread.h
@@ -202,7 +202,7 @@ void
 Thread::remove_ended()
 {
 	thread_latch.enter();
-	if (Thread::find(thread_id))
+	if (Thread::find(thread_id) == this)	// The id may have been reused by another thread
 	{
 		if (state == Ended)
 			ended_count--;
diff --git a/src/thread.cpp b/src/thread.cpp
index 4bd1c59..8416311 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -80,16 +80,17 @@ Thread*
 Thread::joinAny()
 {
 	thread_latch.enter();
-	if (threads.size() <= 1)
-	{
-		thread_latch.leave();
-		return 0;	// No threads except main
-	}
 
 	// Search for a thread whose state is Ended
 	// Remove it from the map and decrement the ended_threads count
 	for (;;)
 	{
+		if (threads.size() == (Thread::find(currentId()) ? 1 : 0))
+		{
+			thread_latch.leave();
+			return 0;	// No threads except the caller and main (which isn't in the map)
+		}
+
 		if (ended_count == 0)	// None have exited but not been joined
 		{
 			ended_threads_condition.wait(&thread_latch);
@@ -107,7 +108,11 @@ Thread::joinAny()
 			threads.erase(tid);
 			assert(!Thread::find(tid));
 			ended_count--;
+			ended_threads_condition.broadcast();	// This might have been the last
 			thread_latch.leave();
+#if	defined(HAVE_PTHREADS)
+			pthread_join(tid, (void**)0);	// Release the system's resources
+#endif
 			return thread;
 		}
 	}
@@ -117,27 +122,37 @@ Thread::joinAny()
 void
 Thread::join()		// Wait for this thread to end
 {
-	Id	caller = currentId();
-	assert(caller != thread_id);	// Can't wait for self!
 	assert(thread_id != 0);		// Can't join a thread that hasn't started
 
 #if	defined(HAVE_PTHREADS)
-	void*	retval; // Value returned from pthread_exit, or PTHREAD_CANCELLED
-	int	error = pthread_join(thread_id, &retval);
-	if (error)
-		; // posixError("join", error, thread_id);	// Translate and report the error
-
 	thread_latch.enter();
-	Thread* thread = Thread::find(thread_id);
-	if (thread)
+	assert(Thread::find(currentId()) != this);	// Can't wait for self!
+	while (state != Ended)
+		ended_threads_condition.wait(&thread_latch);
+
+	// Forget this thread before its id is released by pthread_join and can be used again.
+	// If it's already gone, joinAny has reported it.
+	Id	tid = thread_id;
+	bool	found = Thread::find(tid) == this;
+	if (found)
 	{
-		int erased = threads.erase(thread_id);
+		int erased = threads.erase(tid);
 		assert(erased == 1);
 		ended_count--;
+		ended_threads_condition.broadcast();	// joinAny might have been waiting for this one
 	}
 	thread_latch.leave();
 
+	if (found)
+	{
+		void*	retval; // Value returned from pthread_exit, or PTHREAD_CANCELLED
+		int	error = pthread_join(tid, &retval);
+		if (error)
+			; // posixError("join", error, thread_id);	// Translate and report the error
+	}
+
 #elif	defined(MSW)
+	assert(currentId() != thread_id);	// Can't wait for self!
 	if (state < THREAD_STATE_ENDED) // Thread hasn't finished yet, so wait
 	{
 		int	wait = WaitForSingleObject(thread_handle, INFINITE);
-- 
2.43.0


From e7b7161db243f5f9d351f251ebd5db40a798532b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:04 +0000
Subject: [PATCH 06/84] fix: change the elements of an Array slice at the
 slice's own offset

An unshared slice that does not start at the start of its body inserted and
removed elements at the wrong place. A slice that reaches the end of its
body failed an assertion.
---
 include/array.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/array.h b/include/array.h
index f7ea4a9..33f991d 100644
--- a/include/array.h
+++ b/include/array.h
@@ -210,7 +210,7 @@ public:
 				}
 
 				Unshare();
-				body->remove(at, len);
+				body->remove(offset+at, len);
 				num_elements -= len;
 				return *this;
 			}
@@ -231,7 +231,7 @@ public:
 	ArrayR&		operator+=(const Element& addend)
 			{
 				Unshare(1);
-				body->insert(num_elements, &addend, 1);
+				body->insert(offset+num_elements, &addend, 1);
 				num_elements++;
 				return *this;
 			}
@@ -269,7 +269,7 @@ public:
 				}
 
 				Unshare(addend.length());
-				body->insert(pos, addend.asElements(), addend.length());
+				body->insert(offset+pos, addend.asElements(), addend.length());
 				num_elements += addend.length();
 				return *this;
 			}
@@ -444,8 +444,8 @@ public:
 	ArrayR(Body* body, Index offs, Index len)
 			: body(body), offset(offs), num_elements(len)
 			{
-				assert(offs < body->length());
-				assert(offs+len < body->length());
+				assert(offs <= body->length());
+				assert(len <= body->length()-offs);
 			}
 protected:
 	bool		isStatic() const;
-- 
2.43.0


From 1cdfa72bc3d9af8ea2e313794070b022c7524b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:04 +0000
Subject: [PATCH 07/84] fix: make Array's elem_ref, last_ref, append, unshift,
 reverse, + and += of arrays build

These did not compile or link when used.
---
 include/array.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/array.h b/include/array.h
index 33f991d..8b4198e 100644
--- a/include/array.h
+++ b/include/array.h
@@ -77,7 +77,8 @@ public:
 			  Unshare();
 			  return body->data()[offset+elem_num]; }
 	const Element&	elem_ref(int elem_num) const
-			{ return elem_mut(elem_num); }
+			{ assert(elem_num >= 0 && elem_num < num_elements && body);
+			  return body->data()[offset+elem_num]; }
 	const Element*	asElements() const
 			{ return body ? body->data()+offset : 0; }
 
@@ -244,7 +245,7 @@ public:
 	Element		shift()				// remove an element from the start
 			{ assert(num_elements > 0); return delete_at(0); }
 	ArrayR&		unshift(const Element& e)	// Insert an element at the start
-			{ Unshare(); body->insert(0, e); num_elements++; return *this; }
+			{ Unshare(1); body->insert(offset, &e, 1); num_elements++; return *this; }
 	ArrayR&		insert(Index pos, const ArrayR& addend)
 			{
 				if ((Body*)body == (Body*)addend.body)	// From the same body
@@ -274,7 +275,7 @@ public:
 				return *this;
 			}
 	ArrayR&		append(const ArrayR& addend)	// Append an ArrayR to the end
-			{ return insert(num_elements, addend.asElements(), addend.length()); }
+			{ return insert(num_elements, addend); }
 	ArrayR&		append(const Element& addend)	// Append an element to the end
 			{ return push(addend); }
 	ArrayR&		reverse()
@@ -282,8 +283,8 @@ public:
 				if (num_elements == 0)
 					return *this;				// body may be null
 				Unshare();
-				const Element*	dp = body->data()+offset;	// Start of our slice
-				const Element*	ep = dp+num_elements;		// End of our slice
+				Element*	dp = body->data()+offset;	// Start of our slice
+				Element*	ep = dp+num_elements;		// End of our slice
 				while (ep-dp > 1)				// We haven't reached the middle yet
 				{
 					Element	e = *--ep;
@@ -448,7 +449,8 @@ public:
 				assert(len <= body->length()-offs);
 			}
 protected:
-	bool		isStatic() const;
+	bool		isStatic() const
+			{ return body && body->isStatic(); }
 
 private:
 	Ref<Body>	body;		// The storage structure for the elements
-- 
2.43.0


From 36c96c82ea3f301d857fbb15bcb541b61b11933d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:04 +0000
Subject: [PATCH 08/84] fix: Array search, comparison and delete_if give the
 right answer

rfind never looked at the first element, bsearch looked past the last and
missed others, compare called an array equal to its own prefix, delete_if
deleted nothing, and the functional methods dereferenced the null body of an
empty array.
---
 include/array.h | 67 +++++++++++++++++++++++--------------------------
 1 file changed, 31 insertions(+), 36 deletions(-)

diff --git a/include/array.h b/include/array.h
index 8b4198e..679d827 100644
--- a/include/array.h
+++ b/include/array.h
@@ -100,6 +100,8 @@ public:
 				}
 				if (i < comparand.length())
 					return -1;
+				if (i < num_elements)
+					return 1;
 				return 0;
 			}
 	inline bool	operator==(const ArrayR& comparand) const {
@@ -140,7 +142,7 @@ public:
 	// Linear search for an element
 	int		find(const Element& e, int after = -1) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();	// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp + (after < 0 ? 0 : after+1); bp < ep; bp++)
 					if (*bp == e)
@@ -149,10 +151,10 @@ public:
 			}
 	int		rfind(const Element& e, int before = -1) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();	// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
-				for (const Element* bp = dp + (before < 0 ? num_elements : before)-1; bp > dp; bp--)
-					if (*bp == e)
+				for (const Element* bp = dp + (before < 0 || before > num_elements ? num_elements : before); bp > dp; )
+					if (*--bp == e)
 						return bp-dp;
 				return -1;				// Not found
 			}
@@ -295,33 +297,26 @@ public:
 			}
 	ArrayR&		delete_if(std::function<bool(const Element& e)> condition)
 			{
-				if (num_elements == 0)
-					return *this;				// body may be null
-				const Element*	dp = body->data()+offset;	// Start of our slice
-				const Element*	bp = dp;			// Output pointer
-				const Element*	ep = dp+num_elements;		// End of our slice
-				for (const Element* sp = dp; sp < ep; sp++, bp++)
-					if (condition(*sp))
+				Index	kept = 0;				// How many elements we have kept so far
+				for (Index i = 0; i < num_elements; i++)
+				{
+					if (condition(elem_ref(i)))
+						continue;			// Skip this element in the output
+					if (kept < i)
 					{
-						if (isShared())
-						{
-							Unshare();	// This invalidates the pointers; reset them
-							dp = body->data() + (dp-sp);
-							bp = body->data() + (bp-sp);
-							ep = body->data() + (ep-sp);
-							// sp = body->data();	// Unnecessary, we won't Unshare twice
-						}
-						bp--;	// Skip this element in the output
+						Element&	to = elem_mut(kept);	// Unshares at the first change
+						to = elem_ref(i);
 					}
-				if (bp < dp)
-					num_elements -= (dp-bp);
+					kept++;
+				}
+				num_elements = kept;
 				return *this;
 			}
 
 	// Functional methods (these don't mutate or Unshare the subject):
 	const Self&	each(std::function<void(const Element& e)> operation) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();	// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					operation(*bp);
@@ -330,7 +325,7 @@ public:
 			}
 	bool		all(std::function<bool(const Element& e)> condition) const	// Do all elements satisfy the condition?
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();	// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					if (!condition(*bp))
@@ -339,7 +334,7 @@ public:
 			}
 	bool		any(std::function<bool(const Element& e)> condition) const	// Does any element satisfy the condition?
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();	// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					if (condition(*bp))
@@ -348,7 +343,7 @@ public:
 			}
 	bool		one(std::function<bool(const Element& e)> condition) const	// Exactly one element satisfies the condition
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();	// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				bool		found = false;
 				for (const Element* bp = dp; bp < ep; bp++)
@@ -364,7 +359,7 @@ public:
 	// Linear search for an element using a match function
 	int		find(std::function<bool(const Element& e)> match, int after = -1) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();	// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp + (after < 0 ? 0 : after+1); bp < ep; bp++)
 					if (match(*bp))
@@ -373,10 +368,10 @@ public:
 			}
 	int		rfind(std::function<bool(const Element& e)> match, int before = -1) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();	// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
-				for (const Element* bp = dp + (before < 0 ? num_elements : before)-1; bp > dp; bp--)
-					if (match(*bp))
+				for (const Element* bp = dp + (before < 0 || before > num_elements ? num_elements : before); bp > dp; )
+					if (match(*--bp))
 						return bp-dp;
 				return -1;				// Not found
 			}
@@ -385,7 +380,7 @@ public:
 	Self		select(std::function<bool(const Element& e)> condition) const
 			{
 				Self	selected;
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();	// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					if (condition(*bp))
@@ -396,7 +391,7 @@ public:
 			{
 				Result		output((E2*)0, 0, num_elements);// Preallocate correct size
 
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();	// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					output.append(map1(*bp));
@@ -405,7 +400,7 @@ public:
 	template<typename J> J	inject(const J& start, std::function<J(J&, const Element& e)> injection) const
 			{
 				J	accumulator = start;
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();	// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					accumulator = injection(accumulator, *bp);
@@ -413,17 +408,17 @@ public:
 			}
 	int		bsearch(std::function<int(const Element& e)> comparator) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();	// Start of our slice
 				Index		l = 0;
 				Index		r = num_elements;
 				while (r > l)
 				{
-					Index	m = l+(r-l+1)/2;	// Care with unsigned overflow
+					Index	m = l+(r-l)/2;		// Care with unsigned overflow
 					int	c = comparator(dp[m]);
 					if (c == 0)
 						return m;
 					if (c > 0)
-						r = m-1;		// The middle element was too great
+						r = m;			// The middle element was too great
 					else
 						l = m+1;		// The middle element was too small
 				}
-- 
2.43.0


From a1cc16fae3d0002537f97d45fc1fb41299b6b4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 09/84] fix: inserting an Array into itself uses the elements
 before they move or go

An unshared body was resized and shifted while its old storage was still
the source of the inserted elements.
---
 include/array.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/array.h b/include/array.h
index 679d827..d43d678 100644
--- a/include/array.h
+++ b/include/array.h
@@ -250,6 +250,9 @@ public:
 			{ Unshare(1); body->insert(offset, &e, 1); num_elements++; return *this; }
 	ArrayR&		insert(Index pos, const ArrayR& addend)
 			{
+				if (&addend == this)			// Inserting into itself,
+					return insert(pos, ArrayR(addend));	// so keep the old elements until it's done
+
 				if ((Body*)body == (Body*)addend.body)	// From the same body
 				{
 					// Handle the rare but important cases of extending a slice
-- 
2.43.0


From 475b7297aaf49366a65ac79ac0979bb8bda3489c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 10/84] fix: an ArrayBody that could not grow still knows how
 much it has allocated

num_alloc was raised before the allocation that could throw, so the next
insertion wrote past the end of the storage.
---
 include/array.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/array.h b/include/array.h
index d43d678..ba9bf3b 100644
--- a/include/array.h
+++ b/include/array.h
@@ -600,11 +600,12 @@ protected:
 					return;		// Never release memory on a downsize
 
 				minimum = ((minimum-1)|0x7)+1;	// round up to multiple of 8
-				if (num_alloc)	// Minimum growth 50% rounded up to nearest 16
-					num_alloc = ((num_alloc*3/2) | 0xF) + 1;
-				if (num_alloc < minimum)
-					num_alloc = minimum;		// Still not enough, get enough
-				Element*	newdata = new Element[num_alloc];
+				Index		new_alloc = num_alloc;
+				if (new_alloc)	// Minimum growth 50% rounded up to nearest 16
+					new_alloc = ((new_alloc*3/2) | 0xF) + 1;
+				if (new_alloc < minimum)
+					new_alloc = minimum;		// Still not enough, get enough
+				Element*	newdata = new Element[new_alloc];	// May throw, so change nothing first
 				if (start)
 				{
 					for (Index i = 0; i < num_elements; i++)
@@ -612,6 +613,7 @@ protected:
 					delete[] start;
 				}
 				start = newdata;
+				num_alloc = new_alloc;
 			}
 
 	ArrayBody(ArrayBody&) = delete;		// Never copy a body
-- 
2.43.0


From c40686d7f4375f57448485ff960cd85b5f460d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:15 +0000
Subject: [PATCH 11/84] fix: changing an unshared substring changes just that
 substring

When the string a substring came from had gone, insert, append, toLower,
toUpper, toJSON and transform worked on the whole of the remaining body, at
the wrong place. The bookmark of a copied substring could be before its
start.
---
 include/strval.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index fadc15e..0a2751f 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -798,18 +798,21 @@ private:
 				const char*	ep = nthChar(length());		// end of this substring
 				Index		prefix_bytes = cp - body->nthChar(0, mark); // How many leading bytes of the body we are eliding
 
-				body = new Body(cp, body->isRawBinary() ? StrRawBinary : StrUTF8, ep-cp);
-				mark.char_num = savemark.char_num - offset;	// Restore the bookmark
-				mark.byte_num = savemark.byte_num - prefix_bytes;
+				body = new Body(ep > cp ? cp : "", body->isRawBinary() ? StrRawBinary : StrUTF8, ep-cp);
+				if (savemark.char_num >= offset)		// Restore the bookmark, unless it's in the prefix
+					mark = Bookmark(savemark.char_num - offset, savemark.byte_num - prefix_bytes);
+				else
+					mark = Bookmark();
 				offset = 0;
 			}
 
 	void		Unshare()
 			{
 				// A substring on Unallocated memory which is the last remaining ref
-				// cannot be terminated correctly, so must be copied even if unshared
-				bool	must_copy_static = body->isStatic() && offset+length() < body->numChars();
-				if (must_copy_static || body->isShared())
+				// cannot be terminated correctly, so must be copied even if unshared.
+				// A substring of unshared memory must be copied too, as all changes apply to the whole body
+				bool	must_copy_slice = offset > 0 || offset+length() < body->numChars();
+				if (must_copy_slice || body->isShared())
 					copyBody();
 			}
 
-- 
2.43.0


From 6092ac9e2e4925b50844ad5edc7f6f20a87a1c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:15 +0000
Subject: [PATCH 12/84] fix: forget a StrVal's bookmark when the text before it
 changes

After an insertion or a change of case the bookmark still said where the
character used to be.
---
 include/strval.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/strval.h b/include/strval.h
index 0a2751f..d0be071 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -700,7 +700,8 @@ public:
 				Index		addend_length;		// Get length in bytes
 				const char*	ap = addend.asUTF8(addend_length);
 				body->insertBytes(nthChar(pos)-nthChar(0), ap, addend_length);
-				// REVISIT: update or nullify the bookmark if after insertion point
+				if (mark.char_num > pos)		// The bookmark was after the insertion point
+					mark = Bookmark();
 				num_chars += addend.length();
 				return *this;
 			}
@@ -716,6 +717,7 @@ public:
 				Unshare();	// REVISIT: Unshare only when first change must be made
 				body->toLower();
 				num_chars = body->numChars();
+				mark = Bookmark();
 				return *this;
 			}
 	StrValI&	toUpper()
@@ -723,6 +725,7 @@ public:
 				Unshare();	// REVISIT: Unshare only when first change must be made
 				body->toUpper();
 				num_chars = body->numChars();
+				mark = Bookmark();
 				return *this;
 			}
 	StrValI&	transform(const std::function<StrValI(const char*& cp, const char* ep)> xform, int after = -1);
@@ -732,6 +735,7 @@ public:
 				Unshare();
 				body->toJSON();
 				num_chars = body->numChars();
+				mark = Bookmark();
 				return *this;
 			}
 
-- 
2.43.0


From a33adec4568b7554e49ce0e06f75f19210b28950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:15 +0000
Subject: [PATCH 13/84] fix: inserting a StrVal into itself uses the text
 before it moves or goes

An unshared body was resized and shifted while its old storage was still
the source of the inserted text.
---
 include/strval.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/strval.h b/include/strval.h
index d0be071..6ecda1f 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -694,6 +694,9 @@ public:
 					return *this;
 				}
 
+				if (&addend == this)			// Inserting into itself,
+					return insert(pos, StrValI(addend));	// so keep the old text until it's done
+
 				Unshare();
 
 				// REVISIT: Handle StrRawBinary data
-- 
2.43.0


From 0e62a854fd1f7a67e8e03d4a4e168102f6bf2748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:15 +0000
Subject: [PATCH 14/84] fix: searching a StrVal looks only at the characters it
 contains

find, findAny and findNot of a character looked at the one after the end,
so found it in the rest of the text a substring came from. Searching for a
string longer than the subject, or with rfind before position 0, wrapped
around, and comparisons at the end read beyond the text.
---
 include/strval.h | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 6ecda1f..35cf643 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -496,7 +496,7 @@ public:
 			{
 				Index		n = after+1;		// First Index we'll look at
 				const char*	up;
-				while ((up = nthChar(n)) != 0)
+				while (n < length() && (up = nthChar(n)) != 0)
 				{
 					if (ch == getChar(up))
 						return n;		// Found at n
@@ -522,6 +522,8 @@ public:
 	// Search for substrings:
 	int		find(const StrValI& s1, int after = -1) const
 			{
+				if (s1.length() > length())
+					return -1;
 				Index		n = after+1;		// First Index we'll look at
 				Index		last_start = length()-s1.length();	// Last possible start position
 				const char*	s1start = s1.nthChar(0);
@@ -529,7 +531,7 @@ public:
 				while (n <= last_start && (up = nthChar(n)) != 0)
 				{
 					// REVISIT: Only works if the StrDataType matches
-					if (memcmp(up, s1start, s1.numBytes()) == 0)
+					if (isAt(n, up, s1, s1start))
 						return n;
 					n++;
 				}
@@ -537,6 +539,8 @@ public:
 			}
 	int		rfind(const StrValI& s1, int before = -1) const
 			{
+				if (before == 0 || s1.length() > length())
+					return -1;
 				Index		n = before == -1 ? length()-s1.length() : before-1;	// First Index we'll look at
 				if (n > length()-s1.length())
 					n = length()-s1.length();
@@ -546,7 +550,7 @@ public:
 				while ((bp = nthChar(n)) != 0)
 				{
 					// REVISIT: Only works if the StrDataType matches
-					if (memcmp(bp, s1start, s1.numBytes()) == 0)
+					if (isAt(n, bp, s1, s1start))
 						return n;
 					n--;
 				}
@@ -558,7 +562,7 @@ public:
 			{
 				Index		n = after+1;		// First Index we'll look at
 				const char*	up;
-				while ((up = nthChar(n)) != 0)
+				while (n < length() && (up = nthChar(n)) != 0)
 				{
 					UCS4	ch = getChar(up);
 					for (Index i = 0; i < s1.length(); i++)
@@ -589,7 +593,7 @@ public:
 			{
 				Index		n = after+1;		// First Index we'll look at
 				const char*	up;
-				while ((up = nthChar(n)) != 0)
+				while (n < length() && (up = nthChar(n)) != 0)
 				{
 					UCS4	ch = getChar(up);
 					for (Index i = 0; i < s1.length(); i++)
@@ -797,6 +801,13 @@ private:
 					return *cp++;
 				return UTF8Get(cp);
 			}
+	bool		isAt(Index n, const char* up, const StrValI& s1, const char* s1start) const
+			{	// s1, at s1start, is found at up, our nth character, and ends with one of our characters
+				Index		bytes = s1.numBytes();
+				return bytes <= (Index)(nthChar(length())-up)
+				 && memcmp(up, s1start, bytes) == 0
+				 && nthChar(n+s1.length()) == up+bytes;
+			}
 	void		copyBody()
 			{
 				// Copy only this slice of the body's data, and reset our offset to zero
-- 
2.43.0


From 42120f0f19d7c6689c719882c6bb77e18c5bbc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:15 +0000
Subject: [PATCH 15/84] fix: comparing a StrVal with a shorter one doesn't read
 beyond the shorter

---
 include/strval.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 35cf643..0fbe65d 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -882,10 +882,14 @@ int StrValI<Index>::compare(const StrValI& comparand, CompareStyle style) const
 	switch (style)
 	{
 	case CompareRaw:
-		cmp = memcmp(nthChar(0), comparand.nthChar(0), numBytes());
+	{
+		Index	bytes = numBytes();
+		Index	other_bytes = comparand.numBytes();
+		cmp = memcmp(nthChar(0), comparand.nthChar(0), bytes < other_bytes ? bytes : other_bytes);
 		if (cmp == 0)
-			cmp = numBytes() - comparand.numBytes();
+			cmp = bytes - other_bytes;
 		return cmp;
+	}
 
 	case CompareCI:
 		assert(!"REVISIT: Case-independent comparison is not implemented");
-- 
2.43.0


From 92ccf1bd3f497fb7bdbbbff931511cb8cab77257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:15 +0000
Subject: [PATCH 16/84] fix: threads that share a string's body can each count
 its characters

The count was incremented in place, so two threads using copies of a string
that had not been counted yet raced, and made the count too large.
---
 include/strval.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 0fbe65d..f8af072 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -17,6 +17,7 @@
  *
  * (c) Copyright Clifford Heath 2022. See LICENSE file for usage rights.
  */
+#include	<atomic>
 #include	<cstdlib>
 #include	<cstdint>
 #include	<cstring>
@@ -238,19 +239,20 @@ public:	void		insertBytes(Index pos, const char* addend, Index len)
 				assert(s1.num_alloc == 0);	// Must not do this if we would make two references to allocated data
 				start = s1.start;
 				this->AddRef();			// Ensure we don't get deleted
-				num_chars = s1.num_chars;
+				num_chars = s1.num_chars.load();
 				num_elements = s1.num_elements;
 				num_alloc = 0;
 				return *this;
 			}
 
 protected:
-	Index		num_chars;	// zero if not yet counted, StrValIndexRawBinaryMarker if locale-8bit
+	std::atomic<Index> num_chars;	// zero if not yet counted, StrValIndexRawBinaryMarker if locale-8bit. Any sharer can count
 	void		countChars()
 			{
 				if (isRawBinary())
 					return;
 
+				Index		counted = 0;
 				const char*	cp = start;		// Progress pointer when reading data
 				char*		ep = start+num_elements-1;	// Marker for end of data
 				while (cp < ep)
@@ -260,8 +262,9 @@ protected:
 					 || cp > ep)			// Overlaps the end of data
 						break;			// An error occurred before the end of the data; truncate it.
 					// Count illegal UTF-8 characters here
-					num_chars++;
+					counted++;
 				}
+				num_chars = counted;			// Another thread might store the same value
 			}
 
 	UCS4		getChar(const char*& cp) const	// Return next character, next advancing cp
-- 
2.43.0


From c91feccfcb7e9a390bf7561e068aadeb0e006db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 17/84] fix: a StrVal keeps its text when a transform throws

The old text was lost, and leaked, when an allocation or the callback threw.
---
 include/strval.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/strval.h b/include/strval.h
index f8af072..b03bad8 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -917,6 +917,22 @@ void StrBodyI<Index>::transform(const std::function<Val(const char*& cp, const c
 	assert(ref_count <= 1);
 	char*		old_start = start;
 	size_t		old_num_elements = num_elements;
+	struct OldText
+	{		// If there is no memory, or xform throws, leave the string as it was
+		StrBodyI*	body;
+		char*		start;
+		Index		num_elements, num_alloc, num_chars;
+		~OldText()
+		{
+			if (!body)
+				return;
+			delete [] body->start;
+			body->start = start;
+			body->num_elements = num_elements;
+			body->num_alloc = num_alloc;
+			body->num_chars = num_chars;
+		}
+	} old_text = { this, start, num_elements, num_alloc, num_chars };
 
 	// Allocate new data, preserving the old
 	start = 0;
@@ -972,6 +988,7 @@ void StrBodyI<Index>::transform(const std::function<Val(const char*& cp, const c
 	}
 	// Append the \0 to the array:
 	ArrayBody<char, Index>::insert(num_elements, "", 1);
+	old_text.body = 0;	// We succeeded
 	delete [] old_start;
 }
 
-- 
2.43.0


From 795410266be2780bf489e85f279dfd3298f39b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 18/84] fix: JSON surrogate pairs for characters above U+FFFF

The high surrogate was 0x40 too large, and characters from U+100000 failed
an assertion, as did illegal UTF-8.
---
 include/strval.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index b03bad8..9fafdcc 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -1214,11 +1214,16 @@ StrBodyI<Index>::toJSON()
 					break;
 				}
 
+				if (!UCS4IsUnicode(ch))
+				{		// Not representable, including illegal UTF-8
+					u4(UCS4_REPLACEMENT, op);
+					break;
+				}
+
 				// We need two surrogates for Emoji's etc.
-				assert(ch <= 0xFFFFF);
-				// Surrogate pair: D800 to DBFF, Low surrogate: D800 to DBFF
-				u4(0xD800+((ch>>10)&0x3FF), op);
-				u4(0xDC00+(ch&0x3FF), op);
+				// Surrogate pair: D800 to DBFF, Low surrogate: DC00 to DFFF
+				u4(UCS4HighSurrogate(ch), op);
+				u4(UCS4LowSurrogate(ch), op);
 				break;
 			}
 			*op = '\0';
-- 
2.43.0


From 2f7145303ad87b3a9d888a05fd1810e46b8ace45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 19/84] fix: UTF8Len doesn't look beyond the end of a truncated
 sequence

It looked at the last byte a sequence should have first, which can be
beyond the terminating NUL.
---
 include/char_encoding.h | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/include/char_encoding.h b/include/char_encoding.h
index bc3f613..9b97d17 100644
--- a/include/char_encoding.h
+++ b/include/char_encoding.h
@@ -155,30 +155,22 @@ UTF8CorrectLen(UTF8 c)
 inline int
 UTF8Len(const UTF8* cp)	// REVISIT: Add an error callback pointer here?
 {
-	switch (int len = UTF8CorrectLen(*cp))
-	{	// This reminds me of Duff's Device :)
-	case 6: if (UTF8Is1st(cp[5])) goto illegal;
-		// Fall through
-	case 5: if (UTF8Is1st(cp[4])) goto illegal;
-		// Fall through
-	case 4: if (UTF8Is1st(cp[3])) goto illegal;
-		// Fall through
-	case 3: if (UTF8Is1st(cp[2])) goto illegal;
-		// Fall through
-	case 2: if (UTF8Is1st(cp[1])) goto illegal;
-		// Fall through
-	case 1:
-		return len;
-	case 0:
-	default:					// Cannot happen, but keep the compiler happy
-	illegal:
+	int	len = UTF8CorrectLen(*cp);
+
+	if (len == 0)
+		goto illegal;
+	for (int i = 1; i < len; i++)	// In order, so we stop at the end of a truncated sequence
+		if (UTF8Is1st(cp[i]))
+			goto illegal;
+	return len;
+
+illegal:
 #if defined(UTF8_ASSERT)
-		assert(!"Illegal or unsupported UTF-8 sequence");
-		return 0;
+	assert(!"Illegal or unsupported UTF-8 sequence");
+	return 0;
 #else
-		return 1;		// Use a replacement character
+	return 1;		// Use a replacement character
 #endif
-	}
 }
 
 inline UCS4
-- 
2.43.0


From 185415572199b8903431d30d00791fc17a018518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 20/84] fix: damaged UTF-8 is the same characters from either
 end

Searching backwards took a truncated sequence as one character where
counting took each byte as one, and the count stopped at an encoded
UCS4_NONE so positions counted from the end were wrong.
---
 include/strval.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 9fafdcc..4df1b01 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -162,7 +162,9 @@ public:
 				{		// Search back from end_char to char_num
 					while (end_char > char_num && ep && ep > up)
 					{
-						ep = (char*)UTF8Backup(ep, start);
+						char*	bp = (char*)UTF8Backup(ep, start);
+						// Going forwards, each byte of a truncated sequence is a character
+						ep = bp && UTF8Len(bp) == ep-bp ? bp : ep-1;
 						end_char--;
 					}
 					up = ep;
@@ -257,9 +259,8 @@ protected:
 				char*		ep = start+num_elements-1;	// Marker for end of data
 				while (cp < ep)
 				{
-					UCS4		ch = UTF8Get(cp);
-					if (ch == UCS4_NONE		// Illegal encoding not handled by UTF8_ILLEGAL
-					 || cp > ep)			// Overlaps the end of data
+					(void)UTF8Get(cp);
+					if (cp > ep)			// Overlaps the end of data
 						break;			// An error occurred before the end of the data; truncate it.
 					// Count illegal UTF-8 characters here
 					counted++;
-- 
2.43.0


From 23253207552bf35e15e5b789402100aa409aa3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 21/84] fix: count again when joining damaged UTF-8 makes
 different characters

The sum of the lengths was kept as the length, and indexing the last
characters failed an assertion.
---
 include/strval.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 4df1b01..4b41351 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -710,10 +710,16 @@ public:
 				// REVISIT: Handle StrRawBinary data
 				Index		addend_length;		// Get length in bytes
 				const char*	ap = addend.asUTF8(addend_length);
-				body->insertBytes(nthChar(pos)-nthChar(0), ap, addend_length);
-				if (mark.char_num > pos)		// The bookmark was after the insertion point
+				const char*	at = nthChar(pos);
+				// Parts of damaged UTF-8 can make different characters when they're put together
+				bool		joins = addend_length > 0 && (UTF8Is2nd(*ap) || UTF8Is2nd(*at));
+				body->insertBytes(at-nthChar(0), ap, addend_length);
+				if (joins || mark.char_num > pos)	// The bookmark was after the insertion point
 					mark = Bookmark();
-				num_chars += addend.length();
+				if (joins)
+					num_chars = body->numChars();
+				else
+					num_chars += addend.length();
 				return *this;
 			}
 	StrValI&	append(const StrValI& addend)
@@ -989,6 +995,7 @@ void StrBodyI<Index>::transform(const std::function<Val(const char*& cp, const c
 	}
 	// Append the \0 to the array:
 	ArrayBody<char, Index>::insert(num_elements, "", 1);
+	num_chars = 0;		// Count again; parts of damaged UTF-8 can make different characters when put together
 	old_text.body = 0;	// We succeeded
 	delete [] old_start;
 }
-- 
2.43.0


From 602656e41ae94da7435e71f3a9c03d4d5062525c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 22/84] fix: copying text of a given length doesn't read the
 byte after it

---
 include/strval.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 4b41351..3735f9a 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -79,13 +79,13 @@ public:
 	~StrBodyI()	{}
 	StrBodyI()	: num_chars(0) {}
 	StrBodyI(const char* data, StrDataType dt, Index length = 0, Index allocate = 0)
-			: Body(data, dt != StrStatic, (length == 0 ? strlen(data) : length)+1, allocate)
+			: Body(data, dt != StrStatic, length == 0 ? strlen(data)+1 : length+(dt == StrStatic), allocate > length ? allocate : length+1)
 			, num_chars(0)
 			{
 				// REVISIT: Need a Panic() function when a string passes the allowed maximum size
 				// assert(num_elements < StrValIndexRawBinaryMarker);
 				if (dt != StrStatic && length != 0)
-					start[num_elements-1] = '\0';	// Perhaps we didn't copy a NUL, so add one
+					start[num_elements++] = '\0';	// We didn't copy a NUL, so add one
 				if (dt == StrRawBinary)
 					num_chars = StrValIndexRawBinaryMarker;	// one byte = one char, don't count them
 			}
-- 
2.43.0


From f863a6ea7af09a3237a9c700e04e919c95a8ee48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 23/84] fix: asInt32 reports overflow of int32, and allows 0b
 and 0x with radix 2 and 16

As its comment says. A number that needs 33 to 63 bits was truncated without
an error.
---
 include/strval.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 3735f9a..5f8e2de 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -1056,7 +1056,7 @@ int32_t StrValI<Index>::asInt32(
 			goto no_digits;
 	}
 
-	if (radix == 0)		// Auto-detect radix (octal, decimal, binary)
+	if (radix == 0 || radix == 2 || radix == 16)	// Auto-detect radix (octal, decimal, binary) or skip its prefix
 	{
 		if (UCS4Digit(ch) == 0 && i+1 < len)
 		{
@@ -1087,7 +1087,7 @@ int32_t StrValI<Index>::asInt32(
 				break;
 			}
 		}
-		else
+		else if (radix == 0)
 			radix = 10;
 	}
 
@@ -1125,7 +1125,7 @@ int32_t StrValI<Index>::asInt32(
 	if (scanned)
 		*scanned = i;
 
-	if (l > (unsigned long)LONG_MAX+(negative ? 1 : 0))
+	if (l > (unsigned long)INT32_MAX+(negative ? 1 : 0))
 	{
 		if (err_return)
 			*err_return = ErrNum(STRERR_SET, STRERR_NUMBER_OVERFLOW);
-- 
2.43.0


From 3e14202ba3db968d17e86c3fa72e55e7c2e9e722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 24/84] fix: CowMap::put changes only this map, and loses
 nothing when memory runs out

put() erased the old entry from the shared body before making its own copy,
so the key disappeared from other maps too. The copy leaked when an
allocation failed half-way.
---
 include/cowmap.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/cowmap.h b/include/cowmap.h
index 7e46a13..58e26a3 100644
--- a/include/cowmap.h
+++ b/include/cowmap.h
@@ -75,10 +75,12 @@ public:
 			{ Unshare(); body->erase(k); }
 	Key	put(const Key& k, Value v)
 			{
-				auto search = find(k);
-				if (search != end())
-					body->erase(k);
-				insert(k, v);
+				Unshare();
+				auto search = body->find(k);
+				if (search != body->end())
+					search->second = v;
+				else
+					body->insert(BaseVP(k, v));
 				return k;
 			}
 
@@ -165,7 +167,7 @@ private:
 					return;
 
 				// Copy the old body's data
-				Body* newbody = new Body();
+				Ref<Body> newbody(new Body());
 				for (Iter it = begin(); it != end(); it++)
 					newbody->insert(BaseVP(it->first, it->second));
 				body = newbody;
-- 
2.43.0


From 5775ce85b9a7eedbfa302e5c8601a806eda6e4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 25/84] fix: make the functional methods of CowMap build

keys, values, each, all, any, one, select, map and inject did not compile
when used.
---
 include/cowmap.h | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/include/cowmap.h b/include/cowmap.h
index 58e26a3..de5f588 100644
--- a/include/cowmap.h
+++ b/include/cowmap.h
@@ -87,35 +87,35 @@ public:
 	// Functional methods (these don't mutate or Unshare the subject):
 	Array<Key>	keys() const
 			{
-				Array<K>	all_keys((Value*)0, 0, size());
+				Array<K>	all_keys((Key*)0, 0, size());
 				for (Iter it = begin(); it != end(); it++)
-					all_keys.append(it.first);
+					all_keys.append(it->first);
 				return all_keys;
 			}
 	Array<Value>	values() const
 			{
 				Array<Value>	all_values((Value*)0, 0, size());
 				for (Iter it = begin(); it != end(); it++)
-					all_values.append(it.second);
+					all_values.append(it->second);
 				return all_values;
 			}
 
 	void		each(std::function<void(const Key& k, const Value& v)> operation) const
 			{
 				for (Iter it = begin(); it != end(); it++)
-					operation(it.first, it.second);
+					operation(it->first, it->second);
 			}
 	bool		all(std::function<bool(const Key& k, const Value& v)> condition) const	// Do all elements satisfy the condition?
 			{
 				for (Iter it = begin(); it != end(); it++)
-					if (!condition(it.first, it.second))
+					if (!condition(it->first, it->second))
 						return false;
 				return true;
 			}
 	bool		any(std::function<bool(const Key& k, const Value& v)> condition) const	// Does any element satisfy the condition?
 			{
 				for (Iter it = begin(); it != end(); it++)
-					if (condition(it.first, it.second))
+					if (condition(it->first, it->second))
 						return true;
 				return false;
 			}
@@ -123,7 +123,7 @@ public:
 			{
 				bool		found = false;
 				for (Iter it = begin(); it != end(); it++)
-					if (condition(it.first, it.second))
+					if (condition(it->first, it->second))
 					{
 						if (found)
 							return false;
@@ -137,8 +137,8 @@ public:
 				CowMap	selected;
 
 				for (Iter it = begin(); it != end(); it++)
-					if (condition(it.first, it.second))
-						selected.put(it.first, it.second);
+					if (condition(it->first, it->second))
+						selected.put(it->first, it->second);
 				return selected;
 			}
 	template<typename V2 = V, typename K2 = K>
@@ -146,7 +146,10 @@ public:
 			{
 				CowMap<V2, K2>	output;
 				for (Iter it = begin(); it != end(); it++)
-					output.append(map1(it.first, it.second));
+				{
+					std::pair<K2, V2>	kv = map1(it->first, it->second);
+					output.put(kv.first, kv.second);
+				}
 				return output;
 			}
 	template<typename J>
@@ -154,7 +157,7 @@ public:
 			{
 				J	accumulator = start;
 				for (Iter it = begin(); it != end(); it++)
-					accumulator = injection(accumulator, it.first, it.second);
+					accumulator = injection(accumulator, it->first, it->second);
 				return accumulator;
 			}
 
-- 
2.43.0


From d41f5f25b6d5a399e25d5f05453761727f07332f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 26/84] fix: coercing a Variant to another integer type changes
 its type

The type stayed as it was after a conversion between integer types. Coercing
a String to Integer or Long failed for numbers and gave 0 for others, and
the string was leaked.
---
 include/variant.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/variant.h b/include/variant.h
index 7f1065f..44f59f6 100644
--- a/include/variant.h
+++ b/include/variant.h
@@ -288,12 +288,13 @@ protected:
 			{
 			case Integer:	return; // Already handled
 			case Long:	if (u.l != (int)u.l) break;	// Fail if it would truncate
-					u.i = (int)u.l; return;
+					u.i = (int)u.l; _type = new_type; return;
 			case LongLong:	if (u.ll != (int)u.ll) break;	// Fail if it would truncate
-					u.i = (int)u.ll; return;
+					u.i = (int)u.ll; _type = new_type; return;
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);
-					if (!e)				// Some error in conversion
+					if (e)				// Some error in conversion
 						break;
+					coerce_none();
 					u.i = i32;
 					_type = new_type;
 					return;
@@ -308,13 +309,14 @@ protected:
 		case Long:
 			switch (old_type)
 			{
-			case Integer:	u.l = u.i; return;
+			case Integer:	u.l = u.i; _type = new_type; return;
 			case Long:	return; // Already handled
 			case LongLong:	if (u.ll != (long)u.ll) break;	// Fail if it would truncate
-					u.l = (long)u.ll; return;
+					u.l = (long)u.ll; _type = new_type; return;
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);	// REVISIT: int32 only, or it fails
-					if (!e)				// Some error in conversion
+					if (e)				// Some error in conversion
 						break;
+					coerce_none();
 					u.l = i32;
 					_type = new_type;
 					return;
@@ -329,12 +331,13 @@ protected:
 		case LongLong:
 			switch (old_type)
 			{
-			case Integer:	u.l = u.i; return;
-			case Long:	u.ll = u.l; return;
+			case Integer:	u.ll = u.i; _type = new_type; return;
+			case Long:	u.ll = u.l; _type = new_type; return;
 			case LongLong:	return; // Already handled
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);	// REVISIT: int32 only, or it fails
 					if (e)				// Some error in conversion
 						break;
+					coerce_none();
 					u.ll = i32;
 					_type = new_type;
 					return;
-- 
2.43.0


From 73c8ceaee91aa0f098589d9f2a4aa9fad2239449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 27/84] fix: a Variant made from a map constructs the map

It was assigned to memory where no map had been constructed, or leaked when
an insertion threw.
---
 include/variant.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/variant.h b/include/variant.h
index 44f59f6..b75006d 100644
--- a/include/variant.h
+++ b/include/variant.h
@@ -78,13 +78,15 @@ public:
 	Variant(Variant* v, VariantArray::Index count)
 	{ _type = VarArray; new(&u.var_arr) VariantArray(v, count); }
 	Variant(StrVal* keys, Variant* values, StringArray::Index count)	// StrVarMap
-	{ 	_type = StrVarMap;
-		new(&u.var_map) StrVariantMap();
+	{
+		StrVariantMap	map;
 		for (StringArray::Index i = 0; i < count; i++)
-			u.var_map.insert(keys[i], values[i]);
+			map.insert(keys[i], values[i]);
+		_type = StrVarMap;
+		new(&u.var_map) StrVariantMap(map);
 	}
 	Variant(StrVariantMap map)					// StrVarMap
-	{ _type = StrVarMap; u.var_map = map; }
+	{ _type = StrVarMap; new(&u.var_map) StrVariantMap(map); }
 
 	// Default-initialise any _type
 	Variant(VariantType t)
-- 
2.43.0


From 8be2b6de84f4e6c43787c56b322bb5dde2d59813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:51 +0000
Subject: [PATCH 28/84] fix: constructing a StringArray from several StrVals
 copies those StrVals

---
 include/strval.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 5f8e2de..a67f409 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -1251,8 +1251,10 @@ public:
 	StringArray() {}
 	StringArray(const Base& a1) : Base(a1) {}
 	StringArray(const StrVal* data, Index size, Index allocate = 0)
-	: Array(data, size, allocate)
-	{
+	: Array((const StrVal*)0, 0, allocate < size ? size : allocate)
+	{		// A StrVal is larger than our elements, so data is not an array of those
+		for (Index i = 0; i < size; i++)
+			append(data[i]);
 	}
 
 	// Construct from an Array of const char*
-- 
2.43.0


From 7633b799472b47646dcf957fc64e4d0b1c771415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:59 +0000
Subject: [PATCH 29/84] fix: find and compare the elements of a StringArray by
 their text

---
 include/strval.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/strval.h b/include/strval.h
index a67f409..9bdad5b 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -357,6 +357,11 @@ public:
 	bool		isEmpty() const { return length() == 0; } // equals empty string?
 	operator bool() const { return !isEmpty(); }
 
+	// Compare the text, e.g. in StringArray. Without these, the operator bool values would be compared
+	bool		operator==(const StrRefI& comparand) const { return StrValI<Index>(*this) == StrValI<Index>(comparand); }
+	bool		operator!=(const StrRefI& comparand) const { return !(*this == comparand); }
+	bool		operator<(const StrRefI& comparand) const { return StrValI<Index>(*this) < StrValI<Index>(comparand); }
+
 protected:
 	StrRefI(Body* s1, Index offs, Index len)	// offs/len not bounds-checked!
 			: body(s1), offset(offs), num_chars(len) {}
-- 
2.43.0


From b2c42bd1ea8be018cd50872a9586a2bf4c529ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:47 +0000
Subject: [PATCH 30/84] fix: the empty string's body is ready before any static
 StrVal uses it

---
 include/array.h    | 5 +++++
 include/refcount.h | 1 +
 include/strval.h   | 5 ++++-
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/array.h b/include/array.h
index ba9bf3b..d068a87 100644
--- a/include/array.h
+++ b/include/array.h
@@ -590,6 +590,11 @@ public:
 #endif
 
 protected:
+	// Constant-initialised borrowed data, so a static body is ready before any other static object refers to it
+	constexpr ArrayBody(const Element* data, Index length)
+			: RefCounted(1)			// Cannot be deleted or resized
+			, start(const_cast<Element*>(data)), num_elements(length), num_alloc(0) { }
+
 	Element*	start;		// start of the character data
 	Index		num_elements;	// Number of elements
 	Index		num_alloc;	// How many elements are allocated. 0 means data is not allocated so must not be freed
diff --git a/include/refcount.h b/include/refcount.h
index 2172271..0b5c03e 100644
--- a/include/refcount.h
+++ b/include/refcount.h
@@ -19,6 +19,7 @@ public:
 	int		GetRefCount() volatile const { return (int)ref_count; }
 
 protected:
+	constexpr	RefCounted(int initial) : ref_count(initial) {}	// For static objects
         std::atomic<int>	ref_count;
 };
 
diff --git a/include/strval.h b/include/strval.h
index 9bdad5b..a68714f 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -90,6 +90,9 @@ public:
 					num_chars = StrValIndexRawBinaryMarker;	// one byte = one char, don't count them
 			}
 
+	enum NullBody { Null };
+	constexpr StrBodyI(NullBody) : Body("", 1), num_chars(0) {}	// The empty string, constant-initialised
+
 	inline bool	isShared() const			// It's not just this StrVal using this Body
 			{ return ref_count > 1; }
 	bool		isNulTerminated() const			// If we allocated memory, it's always terminated
@@ -283,7 +286,7 @@ protected:
 			}
 };
 
-template<typename Index> class StrBodyI<Index> StrBodyI<Index>::nullBody("", StrStatic, 0, 0);
+template<typename Index> class StrBodyI<Index> StrBodyI<Index>::nullBody(StrBodyI<Index>::Null);
 
 // A StrVal defined by number of bits in the index:
 template<unsigned int IndexBits = StrValIndexBits>
-- 
2.43.0


From dff04d01e5b9c7803168aeab8f269173e23919e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:33 +0000
Subject: [PATCH 31/84] fix: concatenate two empty Arrays

---
 include/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/array.h b/include/array.h
index d068a87..c3727e5 100644
--- a/include/array.h
+++ b/include/array.h
@@ -443,8 +443,8 @@ public:
 	ArrayR(Body* body, Index offs, Index len)
 			: body(body), offset(offs), num_elements(len)
 			{
-				assert(offs <= body->length());
-				assert(len <= body->length()-offs);
+				assert(offs <= (body ? body->length() : 0));	// An empty array has no body
+				assert(len <= (body ? body->length() : 0)-offs);
 			}
 protected:
 	bool		isStatic() const
-- 
2.43.0


From 65e164debdc2f5b9ca6c5483b3ce6803c63230b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:28 +0000
Subject: [PATCH 32/84] fix: nthChar searches forwards in borrowed text that is
 cut off inside a character

The cut-off bytes aren't counted as a character, so counting back from
the end of the data found the wrong place, and the substrings of such a
text included those bytes.
---
 include/strval.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/strval.h b/include/strval.h
index a68714f..7235097 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -152,7 +152,8 @@ public:
 				/*
 				 * Decide whether to search forwards from up/start_char or backwards from ep/end_char.
 				 */
-				if (char_num-start_char < end_char-char_num)
+				if (char_num-start_char < end_char-char_num
+				 || !isNulTerminated())		// The data might be cut off inside a character, which isn't counted
 				{		// Forwards search is shorter
 					end_char = char_num-start_char; // How far forward should we search?
 					while (start_char < char_num && up < ep)
-- 
2.43.0


From 6ff3f0075f5336c64214b8caf1facfd55969bf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:06 +0000
Subject: [PATCH 33/84] fix: an RxProgram deletes the array it owns as an array

---
 rx/rxmatch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index 56d5835..d632d47 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -132,7 +132,7 @@ RxProgram::RxProgram(const char* _nfa, bool take_ownership)
 
 RxProgram::~RxProgram()
 {
-	if (nfa && nfa_owned) delete(nfa);
+	if (nfa && nfa_owned) delete[] nfa;
 }
 
 StrVal
-- 
2.43.0


From 400f9dda44344dda6ac2bb5b362b0ce1f4c2a192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:06 +0000
Subject: [PATCH 34/84] fix: continue matching after the end of a captured
 group

---
 rx/rxmatch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index d632d47..2fd15a6 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -397,7 +397,7 @@ next:
 		thread.station = instr.next;
 		TRACK(("\t\tthread %d saves end %d=%d\n", thread.thread_number, instr.capture_number, offset));
 		thread.result = thread.result.captureSet(instr.capture_number*2+1, offset);
-		break;
+		goto next;
 
 	case RxOp::RxoZero:
 		thread.result.counterPushZero(offset);
-- 
2.43.0


From c72e95a25a7f607e4ec709edc5f1a33774c25433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:06 +0000
Subject: [PATCH 35/84] fix: continue where the look-ahead started, not where
 it ended

---
 rx/rxmatch.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index 2fd15a6..f3e0d16 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -433,7 +433,8 @@ next:
 	{
 		TRACK(("\t\tthread %d evaluating negative lookahead at %d, text %d '%c'\n", thread.thread_number, thread.station, offset, target[offset]&0xFF));
 		RxMatch		match(*this);
-		RxResult	result = match.matchAt(instr.next, offset);	// REVISIT: Arrange to not keep captures here
+		StrValIndex	lookahead = offset;	// matchAt advances this
+		RxResult	result = match.matchAt(instr.next, lookahead);	// REVISIT: Arrange to not keep captures here
 
 		if (!result)
 		{
-- 
2.43.0


From e54c491b2a7aae51b23bcd4904e1d02e837fd7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 36/84] fix: don't leak a matcher's threads when memory runs
 out

---
 rx/rxmatch.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index f3e0d16..8757be0 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -262,7 +262,12 @@ RxMatch::RxMatch(const RxProgram& _program, StrVal _target)
 	int	i = program.maxStation();
 	current_threads = new Thread[i];
 	current_count = 0;
-	next_threads = new Thread[i];
+	try {
+		next_threads = new Thread[i];
+	} catch (...) {
+		delete[] current_threads;	// The destructor won't run
+		throw;
+	}
 	next_count = 0;
 }
 
@@ -273,7 +278,12 @@ RxMatch::RxMatch(const RxMatch& _tocopy)
 	int	i = program.maxStation();
 	current_threads = new Thread[i];
 	current_count = 0;
-	next_threads = new Thread[i];
+	try {
+		next_threads = new Thread[i];
+	} catch (...) {
+		delete[] current_threads;	// The destructor won't run
+		throw;
+	}
 	next_count = 0;
 }
 
-- 
2.43.0


From c79c306f393e5e2d0a5423b5ffe5b2923176a8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:40 +0000
Subject: [PATCH 37/84] fix: a comma after {n} isn't part of the repetition

---
 rx/rxcompile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 9dff646..689668e 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -170,7 +170,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			min = max = 0;
 			// Find the end of the first number:
 			close = param.find(',');
-			if (close < 0)
+			if (close < 0 || close > param.find('}'))
 				close = param.find('}'); // Just one number?
 			if (close < 0)
 			{
-- 
2.43.0


From d3987436d3c9cc6a8f1041b02b431bb2692bfc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:58 +0000
Subject: [PATCH 38/84] fix: allocate enough space for a compiled expression's
 offsets

---
 rx/rxcompile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 689668e..d6560b8 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -734,7 +734,7 @@ RxCompiler::compile(char*& nfa)
 	// The maximum size of the nfa is thus (bytes_required+offsets_required*offset_max_bytes)
 	// Now we know this, we know the maximum size of an actual offset and can get close to the actual NFA size.
 	// This might be a tad high as some offsets might shrink, but not by much.
-	bytes_required += offsets_required * UTF8Len(bytes_required+offsets_required*offset_max_bytes);
+	bytes_required += offsets_required * offset_max_bytes;
 	// printf("Allocating %d bytes for the NFA\n", bytes_required);
 
 	nfa = new UTF8[bytes_required+1];
-- 
2.43.0


From a78a123d661732fcee154cef65547d7cd63190ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:37 +0000
Subject: [PATCH 39/84] fix: a match can pass any number of splits before its
 next character

---
 rx/rxmatch.cpp | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index 8757be0..1884614 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -93,7 +93,12 @@ private:
 	RxStationID	current_count;		// How many of the above are populated
 	Thread*		next_threads;		// The threads that lead on from here
 	RxStationID	next_count;		// How many of the above are populated
-	void		addthread(Thread thread, StrValIndex offset, StrValIndex *shunts, StrValIndex num_shunt, StrValIndex max_duplicates_allowed = 0);
+
+	struct Shunt {				// The shunts we've followed at this offset, most recent first
+		RxStationID	station;
+		const Shunt*	previous;
+	};
+	void		addthread(Thread thread, StrValIndex offset, const Shunt* shunts = 0, StrValIndex max_duplicates_allowed = 0);
 };
 
 static int32_t zagzig(int32_t i)
@@ -314,22 +319,16 @@ int	RxMatch::Thread::next_thread = 0;	// Sequential thread numbering to aid in d
 #endif
 
 void
-RxMatch::addthread(Thread thread, StrValIndex offset, StrValIndex* shunts, StrValIndex num_shunt, StrValIndex max_duplicates_allowed)
+RxMatch::addthread(Thread thread, StrValIndex offset, const Shunt* previous_shunts, StrValIndex max_duplicates_allowed)
 {
 	// Recursion control, prevents stack explosion on empty loops
-	for (int i = 0; i < num_shunt; i++)
-		if (shunts[i] == thread.station)
+	for (const Shunt* shunt = previous_shunts; shunt; shunt = shunt->previous)
+		if (shunt->station == thread.station)
 		{
 			TRACK(("\t\tthread %d would recurse\n", thread.thread_number));
 			return;
 		}
-	assert(num_shunt < RxMaxNesting);
-	if (num_shunt == RxMaxNesting)
-	{
-		TRACK(("\t\tthread %d would exceed nesting limit\n", thread.thread_number));
-		return;
-	}
-	shunts[num_shunt++] = thread.station;
+	const Shunt	shunts = { thread.station, previous_shunts };
 
 	int	duplicates = 0;
 	for (int i = 0; i < next_count; i++)
@@ -393,8 +392,8 @@ next:
 
 	case RxOp::RxoSplit:
 		// REVISIT: For non-greedy repetition, we need these addthread calls in opposite order (same for RxoCount)
-		addthread(Thread(instr.alternate, thread.result), offset, shunts, num_shunt);
-		addthread(Thread(instr.next, thread.result, &thread), offset, shunts, num_shunt);
+		addthread(Thread(instr.alternate, thread.result), offset, &shunts);
+		addthread(Thread(instr.next, thread.result, &thread), offset, &shunts);
 		break;
 
 	case RxOp::RxoCaptureStart:
@@ -426,14 +425,14 @@ next:
 
 		if ((counter <= instr.repetition.max || instr.repetition.max == 0)	// Greedily repeat
 		 && previous.offset <= offset)		// Only if we advanced
-			addthread(Thread(instr.alternate, thread.result), offset, shunts, num_shunt, instr.repetition.min);
+			addthread(Thread(instr.alternate, thread.result), offset, &shunts, instr.repetition.min);
 
 		if ((counter >= instr.repetition.min || previous.offset == offset)	// Reached minimum count, or will without advancing
 		 && (instr.repetition.max == 0 || counter <= instr.repetition.max))
 		{
 			RxResult	continuation = thread.result;
 			continuation.counterPop();	// The continuing thread has no further need of the counter
-			addthread(Thread(instr.next, continuation, &thread), offset, shunts, num_shunt, instr.repetition.min);
+			addthread(Thread(instr.next, continuation, &thread), offset, &shunts, instr.repetition.min);
 		}
 		thread.result.clear();
 	}
@@ -450,7 +449,7 @@ next:
 		{
 			// Not matched, as requested, so continue with the next instruction at the current offset
 			TRACK(("\t\tthread %d negative lookahead failed, so we can continue at offset %d\n", thread.thread_number, offset));
-			addthread(Thread(instr.alternate, thread.result, &thread), offset, shunts, num_shunt, instr.repetition.min);
+			addthread(Thread(instr.alternate, thread.result, &thread), offset, &shunts, instr.repetition.min);
 		}
 		else
 			TRACK(("\t\thread %d negative lookahead succeeded, abandon ship\n", thread.thread_number));
@@ -488,11 +487,10 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 {
 	Thread*		thread_p;
 	RxDecoded	instr;
-	StrValIndex 	shunts[RxMaxNesting];	// Controls recursion in addthread
 
 	// Start where directed, and step forward one character at a time, following all threads until successful or there are no threads left
 	next_count = 0;
-	addthread(Thread(start, RxResult(program.maxCounter(), program.maxCapture())), offset, shunts, 0);
+	addthread(Thread(start, RxResult(program.maxCounter(), program.maxCapture())), offset);
 	std::swap(current_threads, next_threads);
 	current_count = next_count;
 	next_count = 0;
@@ -646,7 +644,7 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 
 			case succeeded:			// This instruction succeeded, so continue with the next one
 				TRACK(("succeeds\n"));
-				addthread(Thread(instr.next, thread_p->result, thread_p), offset+1, shunts, 0);
+				addthread(Thread(instr.next, thread_p->result, thread_p), offset+1);
 				break;
 
 			case accepted:			// This thread has matched
-- 
2.43.0


From d7b07b06603b8bfd5e7a64e04d8199074a049b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:05 +0000
Subject: [PATCH 40/84] fix: keep one matcher thread for each station and set
 of counters

---
 rx/rxmatch.cpp | 103 ++++++++++++++-----------------------------------
 1 file changed, 28 insertions(+), 75 deletions(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index 1884614..e786be6 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -89,16 +89,14 @@ private:
 	RxResult	result;			// Result from the successful thread
 
 	// Concurrent threads of execution:
-	Thread*		current_threads;	// The threads we're currently evaluating
-	RxStationID	current_count;		// How many of the above are populated
-	Thread*		next_threads;		// The threads that lead on from here
-	RxStationID	next_count;		// How many of the above are populated
+	std::vector<Thread>	current_threads;	// The threads we're currently evaluating
+	std::vector<Thread>	next_threads;		// The threads that lead on from here
 
 	struct Shunt {				// The shunts we've followed at this offset, most recent first
 		RxStationID	station;
 		const Shunt*	previous;
 	};
-	void		addthread(Thread thread, StrValIndex offset, const Shunt* shunts = 0, StrValIndex max_duplicates_allowed = 0);
+	void		addthread(Thread thread, StrValIndex offset, const Shunt* shunts = 0);
 };
 
 static int32_t zagzig(int32_t i)
@@ -265,15 +263,8 @@ RxMatch::RxMatch(const RxProgram& _program, StrVal _target)
 , target(_target)
 {
 	int	i = program.maxStation();
-	current_threads = new Thread[i];
-	current_count = 0;
-	try {
-		next_threads = new Thread[i];
-	} catch (...) {
-		delete[] current_threads;	// The destructor won't run
-		throw;
-	}
-	next_count = 0;
+	current_threads.reserve(i);
+	next_threads.reserve(i);
 }
 
 RxMatch::RxMatch(const RxMatch& _tocopy)
@@ -281,21 +272,12 @@ RxMatch::RxMatch(const RxMatch& _tocopy)
 , target(_tocopy.target)
 {
 	int	i = program.maxStation();
-	current_threads = new Thread[i];
-	current_count = 0;
-	try {
-		next_threads = new Thread[i];
-	} catch (...) {
-		delete[] current_threads;	// The destructor won't run
-		throw;
-	}
-	next_count = 0;
+	current_threads.reserve(i);
+	next_threads.reserve(i);
 }
 
 RxMatch::~RxMatch()
 {
-	delete[] current_threads;
-	delete[] next_threads;
 }
 
 RxMatch::Thread::Thread()
@@ -319,7 +301,7 @@ int	RxMatch::Thread::next_thread = 0;	// Sequential thread numbering to aid in d
 #endif
 
 void
-RxMatch::addthread(Thread thread, StrValIndex offset, const Shunt* previous_shunts, StrValIndex max_duplicates_allowed)
+RxMatch::addthread(Thread thread, StrValIndex offset, const Shunt* previous_shunts)
 {
 	// Recursion control, prevents stack explosion on empty loops
 	for (const Shunt* shunt = previous_shunts; shunt; shunt = shunt->previous)
@@ -330,37 +312,6 @@ RxMatch::addthread(Thread thread, StrValIndex offset, const Shunt* previous_shun
 		}
 	const Shunt	shunts = { thread.station, previous_shunts };
 
-	int	duplicates = 0;
-	for (int i = 0; i < next_count; i++)
-	{
-		if (next_threads[i].station == thread.station)
-		{
-			if ((max_duplicates_allowed			// Check for an exact duplicate first
-				&& thread.result.countersSame(next_threads[i].result))
-			 || ++duplicates > max_duplicates_allowed)	// Or too many duplicates
-			{
-				// The above condition is not perfect - it fails with 5x nested counted repetitions for example.
-				// Failing to find a solution in such a pathological case doesn't bother me.
-				// Should we have a policy of deleting the duplicate with the lowest count?
-
-#ifdef TRACK_RESULTS
-				TRACK(("\t\tthread %d at %d is a duplicate", thread.thread_number, thread.station));
-				if (thread.result.hasCounter()) TRACK((" (count %d)", thread.result.counterTop().count));
-				TRACK((" of thread %d", next_threads[i].thread_number));
-				if (next_threads[i].result.hasCounter())
-				{
-					TRACK((" (counters"));
-					for (int i = 0; i < next_threads[i].result.counterNum(); i++)
-						TRACK((" %d", next_threads[i].result.counterGet(i)));
-					TRACK((")"));
-				}
-				TRACK(("\n"));
-#endif
-				return;		// We already have this thread
-			}
-		}
-	}
-
 	/*
 	 * If the opcode at the new thread won't consume text, evaluate it either by looping (tail recursion) or a recursive call
 	 */
@@ -425,14 +376,14 @@ next:
 
 		if ((counter <= instr.repetition.max || instr.repetition.max == 0)	// Greedily repeat
 		 && previous.offset <= offset)		// Only if we advanced
-			addthread(Thread(instr.alternate, thread.result), offset, &shunts, instr.repetition.min);
+			addthread(Thread(instr.alternate, thread.result), offset, &shunts);
 
 		if ((counter >= instr.repetition.min || previous.offset == offset)	// Reached minimum count, or will without advancing
 		 && (instr.repetition.max == 0 || counter <= instr.repetition.max))
 		{
 			RxResult	continuation = thread.result;
 			continuation.counterPop();	// The continuing thread has no further need of the counter
-			addthread(Thread(instr.next, continuation, &thread), offset, &shunts, instr.repetition.min);
+			addthread(Thread(instr.next, continuation, &thread), offset, &shunts);
 		}
 		thread.result.clear();
 	}
@@ -449,7 +400,7 @@ next:
 		{
 			// Not matched, as requested, so continue with the next instruction at the current offset
 			TRACK(("\t\tthread %d negative lookahead failed, so we can continue at offset %d\n", thread.thread_number, offset));
-			addthread(Thread(instr.alternate, thread.result, &thread), offset, &shunts, instr.repetition.min);
+			addthread(Thread(instr.alternate, thread.result, &thread), offset, &shunts);
 		}
 		else
 			TRACK(("\t\thread %d negative lookahead succeeded, abandon ship\n", thread.thread_number));
@@ -471,10 +422,15 @@ next:
 		}
 		TRACK(("\n"));
 #endif
-		assert(next_count < program.maxStation());
-		if (next_count < program.maxStation())
-			next_threads[next_count++] = thread;
-		// else the compiler let us down; silently ignore this possible path and hope something else matches correctly
+		// A thread at the same station with the same counters can only match the same text. Keep the first; it started earliest.
+		for (size_t i = 0; i < next_threads.size(); i++)
+			if (next_threads[i].station == thread.station
+			 && thread.result.countersSame(next_threads[i].result))
+			{
+				TRACK(("\t\tthread %d at %d is a duplicate of thread %d\n", thread.thread_number, thread.station, next_threads[i].thread_number));
+				return;
+			}
+		next_threads.push_back(thread);
 	}
 };
 
@@ -489,15 +445,13 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 	RxDecoded	instr;
 
 	// Start where directed, and step forward one character at a time, following all threads until successful or there are no threads left
-	next_count = 0;
+	next_threads.clear();
 	addthread(Thread(start, RxResult(program.maxCounter(), program.maxCapture())), offset);
-	std::swap(current_threads, next_threads);
-	current_count = next_count;
-	next_count = 0;
-	for (; current_count > 0 && offset <= target.length(); offset++)
+	current_threads.swap(next_threads);
+	for (; current_threads.size() > 0 && offset <= target.length(); offset++)
 	{
-		TRACK(("\ncycle at offset %d with %d threads looking at '%s'\n", offset, current_count, target.substr(offset, 1).asUTF8()));
-		for (thread_p = current_threads; thread_p < current_threads+current_count; thread_p++)
+		TRACK(("\ncycle at offset %d with %d threads looking at '%s'\n", offset, (int)current_threads.size(), target.substr(offset, 1).asUTF8()));
+		for (thread_p = current_threads.data(); thread_p < current_threads.data()+current_threads.size(); thread_p++)
 		{
 			RxStationID	pc = thread_p->station;
 			program.decode(pc, instr);
@@ -668,9 +622,8 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 			thread_p->result.clear();
 		}
 
-		std::swap(current_threads, next_threads);
-		current_count = next_count;
-		next_count = 0;
+		current_threads.swap(next_threads);
+		next_threads.clear();
 	}
 
 	// If we have a result, it's in `result`.
@@ -678,7 +631,7 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 	// REVISIT: Might it be useful to know on which Station(s) we ran out of input? Or callback to get more?
 
 	// Wipe old result references, we already copied the one we chose:
-	for (thread_p = current_threads; thread_p < current_threads+current_count; thread_p++)
+	for (thread_p = current_threads.data(); thread_p < current_threads.data()+current_threads.size(); thread_p++)
 		thread_p->result.clear();
 	return result;
 }
-- 
2.43.0


From 05a1eb20bcc25e1518b38369de83e72363070b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:00 +0000
Subject: [PATCH 41/84] fix: repeat an item whose choices were already tried
 with other counters, but not after it matched nothing

---
 rx/rxmatch.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index e786be6..2f90b3c 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -94,6 +94,7 @@ private:
 
 	struct Shunt {				// The shunts we've followed at this offset, most recent first
 		RxStationID	station;
+		RxResult	result;		// For the counters
 		const Shunt*	previous;
 	};
 	void		addthread(Thread thread, StrValIndex offset, const Shunt* shunts = 0);
@@ -305,12 +306,13 @@ RxMatch::addthread(Thread thread, StrValIndex offset, const Shunt* previous_shun
 {
 	// Recursion control, prevents stack explosion on empty loops
 	for (const Shunt* shunt = previous_shunts; shunt; shunt = shunt->previous)
-		if (shunt->station == thread.station)
+		if (shunt->station == thread.station
+		 && shunt->result.countersSame(thread.result))
 		{
 			TRACK(("\t\tthread %d would recurse\n", thread.thread_number));
 			return;
 		}
-	const Shunt	shunts = { thread.station, previous_shunts };
+	const Shunt	shunts = { thread.station, thread.result, previous_shunts };
 
 	/*
 	 * If the opcode at the new thread won't consume text, evaluate it either by looping (tail recursion) or a recursive call
@@ -375,7 +377,7 @@ next:
 			TRACK(("\t\tRepetition at shunt %d did not proceed from offset %d\n", thread.station, offset));
 
 		if ((counter <= instr.repetition.max || instr.repetition.max == 0)	// Greedily repeat
-		 && previous.offset <= offset)		// Only if we advanced
+		 && previous.offset < offset)		// Only if we advanced
 			addthread(Thread(instr.alternate, thread.result), offset, &shunts);
 
 		if ((counter >= instr.repetition.min || previous.offset == offset)	// Reached minimum count, or will without advancing
-- 
2.43.0


From c7b35b83e00f57bf962ee236ee6f183b8a9a1153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:09 +0000
Subject: [PATCH 42/84] fix: a repetition that may occur zero times may be left
 out

---
 rx/rxmatch.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index 2f90b3c..b7c1324 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -362,6 +362,14 @@ next:
 		goto next;
 
 	case RxOp::RxoZero:
+	{
+		// Find the RxoCount at the end of this repetition. If there may be no repetitions, try that as well.
+		RxDecoded	count = instr;
+		for (int nested = 1; nested > 0; nested += count.op == RxOp::RxoZero ? 1 : count.op == RxOp::RxoCount ? -1 : 0)
+			program.decode(count.next, count);
+		if (count.repetition.min == 0)
+			addthread(Thread(count.next, thread.result), offset, &shunts);
+	}
 		thread.result.counterPushZero(offset);
 		thread = Thread(instr.next, thread.result, &thread);
 		goto next;
-- 
2.43.0


From e3431e91588c019da774390ff963f2a3820544b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:23 +0000
Subject: [PATCH 43/84] fix: the non-capturing Peg context takes States, as
 Pegexp and Peg pass them

---
 include/peg.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/peg.h b/include/peg.h
index 1a28516..d2a6705 100644
--- a/include/peg.h
+++ b/include/peg.h
@@ -61,6 +61,7 @@ class PegContextNoCapture
 public:
 	using	Match = _Match;
 	using	Source = typename Match::Source;
+	using	State = typename Match::State;
 	using	PegexpT = PegPegexp<PegContextNoCapture>;
 	using	Rule = PegRuleNoCapture<PegexpT>;
 	using	PegT = Peg<Source, Match, PegContextNoCapture>;
@@ -92,11 +93,11 @@ public:
 	// When an atom of a Pegexp fails, the atom (pointer to start and end) and Source location are passed here
 	void		record_failure(PatternP op, PatternP op_end, Source location) {}
 
-	Match		match_result(Source from, Source to)	// Capture the range of text
+	Match		match_result(State from, State to)	// Capture the range of text
 			{ return Match(from, to); }
 
-	Match		match_failure(Source at)
-			{ return Match(at, Source()); }
+	Match		match_failure(State at)
+			{ return Match(at, at); }
 
 	PegT*		peg;
 	PegContextNoCapture* 	parent;
-- 
2.43.0


From 47e8cbf5f95a896f924e8a9592d84be9a0a3f3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:03 +0000
Subject: [PATCH 44/84] fix: skipping a repeated atom skips the atom that is
 repeated

---
 include/pegexp.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/pegexp.h b/include/pegexp.h
index 16176e6..139630d 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -794,6 +794,9 @@ protected:
 				skip_atom(pattern);
 			break;
 
+		case '?':	// Zero or one
+		case '*':	// Zero or more
+		case '+':	// One or more
 		case '&':	// Positive lookahead assertion
 		case '!':	// Negative lookahead assertion
 			skip_atom(pattern);
-- 
2.43.0


From 29b5709b992058e2bb361ef0a8e55d14cc196ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:24 +0000
Subject: [PATCH 45/84] fix: a labelled atom captures its text, not what the
 context has captured so far

---
 include/pegexp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index 139630d..c3790c1 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -744,7 +744,7 @@ protected:
 			if (context->capture_disabled == 0)
 				(void)context->capture(
 					name, name_end-name,
-					context->match_result(start_state, state),
+					Match(start_state, state),	// Just the text of this atom
 					context->repetition_nesting > 0
 				);
 		}
-- 
2.43.0


From 211fb1382b3a541c5e37d29055e1493b2e0d7c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:53 +0000
Subject: [PATCH 46/84] fix: a failed parse reports how far it got and what was
 wanted there

---
 include/peg_ast.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/peg_ast.h b/include/peg_ast.h
index 592a16a..2f48f35 100644
--- a/include/peg_ast.h
+++ b/include/peg_ast.h
@@ -231,7 +231,11 @@ public:
 	}
 
 	Match		match_failure(State at)
-	{ return Match(at, at); }
+	{
+		if (parent == 0)	// Report how far we got, and what would have got us further
+			return Match(Variant(), furthermost_success, failures);
+		return Match(at, at);
+	}
 
 #if defined(PEG_TRACE)
 	int		depth()
-- 
2.43.0


From 77f743738c4688d9a24c31dee8ea8e641747cc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:20 +0000
Subject: [PATCH 47/84] fix: a character class that fails at the end of the
 text is reported whole

---
 include/pegexp.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/pegexp.h b/include/pegexp.h
index c3790c1..0c3de98 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -474,7 +474,10 @@ protected:
 	bool		char_class(State& state)
 	{
 		if (state.source.at_eof())		// End of input never matches a char_class
+		{
+			skip_atom(--state.pattern);	// Report the whole class as what failed
 			return false;
+		}
 
 		State	start_state(state);
 		start_state.pattern--;
-- 
2.43.0


From e45984fe37a438eaf10e9b45caeed49aed7f6613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:05 +0000
Subject: [PATCH 48/84] fix: an empty alternative matches nothing instead of
 what follows it

---
 include/pegexp.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index 0c3de98..39e1e92 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -651,10 +651,9 @@ protected:
 				start_state.pattern = next_alternate+1;
 
 				// Work through all atoms of the current alternate:
-				do {
+				while (!(matched = state.at_expr_end() || *state.pattern == '|'))	// It may be empty
 					if (!match_atom(state, context))
 						break;
-				} while (!(matched = state.at_expr_end() || *state.pattern == '|'));
 
 				if (matched)
 				{		// This alternate matched, skip to the end of the alternates
-- 
2.43.0


From 431b2e6b4b2b462bc22fba2912b1cfe66bb77836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:41 +0000
Subject: [PATCH 49/84] fix: a Peg rule is found when another rule's name
 continues its name

---
 include/peg.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/peg.h b/include/peg.h
index d2a6705..2e30edc 100644
--- a/include/peg.h
+++ b/include/peg.h
@@ -282,7 +282,10 @@ public:
 				const char*	key_name = (const char*)key;
 				const char*	rule_name = ((const Rule*)r2)->name;
 				int		len = strlen(rule_name);
+				int		key_len = strcspn(key_name, ">");
 
+				if (key_len < len && strncmp(key_name, rule_name, key_len) == 0)
+					return -1;	// This key is a shortened version of the rule's name
 				int		cval = strncmp(key_name, rule_name, len);
 				if (cval == 0 && (key_name[len] != '>' && key_name[len] != '\0'))
 					cval = 1;	// This rule has a shortened version of this key
-- 
2.43.0


From a012fc9958ad4d98d61354b2f39884827310c67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 50/84] fix: capturing a label doesn't capture the labels that
 start with it

---
 include/peg_ast.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/peg_ast.h b/include/peg_ast.h
index 2f48f35..800fed8 100644
--- a/include/peg_ast.h
+++ b/include/peg_ast.h
@@ -104,10 +104,14 @@ public:
 		if (!captures)
 			return false;
 		for (int i = 0; captures[i]; i++)
-			if (0 == strncmp(captures[i], label, strlen(captures[i])))
+			if (0 == strncmp(captures[i], label, strlen(captures[i]))
+			 && !is_label_char(label[strlen(captures[i])]))	// Not just the start of a longer label
 				return true;
 		return false;
 	}
+
+	static bool is_label_char(char c)
+	{ return isalnum(c) || c == '_'; }
 };
 
 /*
-- 
2.43.0


From 08cc5ab0d2138a31d6a1e0a75f1443d7affc1ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:32 +0000
Subject: [PATCH 51/84] fix: captures are rolled back partway, to where the
 failed part of the path began

---
 include/peg_ast.h | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/include/peg_ast.h b/include/peg_ast.h
index 800fed8..5adfd3f 100644
--- a/include/peg_ast.h
+++ b/include/peg_ast.h
@@ -162,6 +162,7 @@ public:
 		if (ast.contains(key))
 		{		// There are previous captures under this name
 			existing = ast[key];
+			undos.append({key, existing.type() != Variant::VarArray ? Undo::Single : Undo::Last});
 			if (existing.type() != Variant::VarArray)
 				existing = Variant(&existing, 1);	// Convert it to an array
 			VariantArray va = existing.as_variant_array();
@@ -170,7 +171,10 @@ public:
 			existing = ast[key];
 		}
 		else	// Insert the match as the first element in an array, or just as itself:
+		{
+			undos.append({key, Undo::Remove});
 			ast.insert(key, in_repetition ? Variant(&value, 1) : value);
+		}
 
 		num_captures++;
 		return 0;
@@ -181,18 +185,29 @@ public:
 		return num_captures;
 	}
 
-	// The grammar should not capture anything that rolls back except to zero, unless on failure:
 	void		rollback_capture(int count)
 	{
 		if (count >= num_captures)
 			return;
 		if (count == 0)
-		{		// We can rollback to zero, but not partway
+		{		// Rolling back to zero is easy
 			ast.clear();
+			undos.clear();
 			num_captures = 0;
 			return;
 		}
-		printf("REVISIT: Not rolling back to %d from %d\n", count, num_captures);
+		for (; num_captures > count; num_captures--)
+		{		// Undo the most recent capture
+			Undo		undo = undos.pull();
+			if (undo.how == Undo::Remove)
+			{
+				ast.remove(undo.key);
+				continue;
+			}
+			VariantArray	va = ast[undo.key].as_variant_array();
+			(void)va.pull();
+			ast.put(undo.key, undo.how == Undo::Single ? va[0] : Variant(va));
+		}
 	}
 
 	void		record_failure(PatternP op, PatternP op_end, Source location)
@@ -268,8 +283,17 @@ public:
 	int		capture_disabled;	// Counter that bumps up from zero to disable captures
 
 protected:
+	// How to undo a capture: the key was new, or its single value became an array, or the array was extended
+	struct Undo
+	{
+		enum How { Remove, Single, Last };
+		StrVal	key;
+		How	how;
+	};
+
 	int		num_captures;
 	StrVariantMap	ast;
+	Array<Undo>	undos;	// For each capture
 
 	// The next two are populated only on the outermost Context, to be returned from the parse
 	Source		furthermost_success;	// Source location of the farthest location the parser reached
-- 
2.43.0


From 19acd982f1dc7f38ce9a5769cb92bd7051bdca07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 52/84] fix: the case of characters beyond a byte isn't looked
 up in ctype's tables

---
 include/char_encoding.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/char_encoding.h b/include/char_encoding.h
index 9b97d17..2998acf 100644
--- a/include/char_encoding.h
+++ b/include/char_encoding.h
@@ -87,6 +87,8 @@ inline bool	isalnum(UCS4 c) { return UCS4IsAlphabetic(c) || UCS4IsDecimal(c); }
 inline UCS4	toupper(UCS4 c) { return UCS4ToUpper(c); }
 inline UCS4	tolower(UCS4 c) { return UCS4ToLower(c); }
 inline bool	isspace(UCS4 c) { return UCS4IsWhite(c); }
+inline bool	islower(UCS4 c) { return UCS4ToUpper(c) != c && UCS4ToLower(c) == c; }
+inline bool	isupper(UCS4 c) { return UCS4ToLower(c) != c && UCS4ToUpper(c) == c; }
 
 inline bool
 UCS4IsIllegal(UCS4 ucs4)	// Does this UCS4 character encode an illegal utf-8 byte?
-- 
2.43.0


From 205212ad812d8dd70e9c0bdfcaff44f116a262bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 53/84] fix: a malformed Pegexp isn't read past its end

---
 include/pegexp.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index 39e1e92..1ca2448 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -402,6 +402,11 @@ protected:
 		if (rc != '\\')
 			return rc;
 		rc = *pattern++;
+		if (rc == '\0')				// Error: nothing after the backslash
+		{
+			pattern--;
+			return 0;
+		}
 		if (rc >= '0' && rc <= '7')		// Octal
 		{
 			rc -= '0';
@@ -416,9 +421,11 @@ protected:
 				return 0;
 			if ((braces = (*pattern == '{')))
 				pattern++;
-			rc = unhex(*pattern++);
-			if (rc < 0)
+			int first = unhex(*pattern);
+			if (first < 0)
 				return 0;		// Error: invalid first hex digit
+			rc = first;
+			pattern++;
 			int second = unhex(*pattern++);
 			if (second >= 0)
 				rc = (rc << 4) | second;
@@ -761,6 +768,8 @@ protected:
 
 	const PatternP	skip_atom(PatternP& pattern)
 	{
+		if (*pattern == '\0')			// There's nothing to skip
+			return pattern;
 		switch (char rc = *pattern++)
 		{
 		case '\\':	// Escaped literal char
-- 
2.43.0


From 3f8930c5d4a328928c2b883fada1341e07e6de88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:37 +0000
Subject: [PATCH 54/84] fix: guarded char pointers move back when asked to, and
 no further than their text either way

---
 include/char_ptr.h | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/char_ptr.h b/include/char_ptr.h
index 182c29c..a2b9bc4 100644
--- a/include/char_ptr.h
+++ b/include/char_ptr.h
@@ -71,7 +71,7 @@ public:
 	NulGuardedCharPtr&	operator+=(int i)
 			{	const char* s = data;
 				while (i > 0 && *s != '\0') { s++; i--;}// Advance slowly
-				if (i < 0) s -= i;		// Or backup suddenly
+				if (i < 0) s += i;		// Or backup suddenly
 				data = s; return *this;
 			}
 	NulGuardedCharPtr	operator+(int i){ NulGuardedCharPtr t(*this); t += i; return t; }
@@ -109,12 +109,29 @@ public:
 	GuardedCharPtr&	operator+=(int i)
 			{	const char* s = data;
 				while (i > 0 && *s != '\0') { s++; i--;}// Advance
-				if (-i > s-origin)	// Or backup
+				if (i < 0 && -(long)i > s-origin)	// Or backup
 					s = origin;	// Either return as far as the origin
-				else
+				else if (i < 0)
 					s += i;		// or backup as far as requested
 				data = s; return *this;
 			}
+	GuardedCharPtr	operator+(int i){ GuardedCharPtr t(*this); t += i; return t; }
+	GuardedCharPtr	operator-=(int i){ return *this += -i; }
+	GuardedCharPtr	operator-(int i){ GuardedCharPtr t(*this); t += -i; return t; }
+
+	// incr/decr functions:
+	GuardedCharPtr&	preincr()	{ NulGuardedCharPtr::preincr(); return *this; }
+	GuardedCharPtr	postincr()	{ GuardedCharPtr save(*this); ++*this; return save; }
+	GuardedCharPtr&	predecr()	{ const char* s = data; !at_bot() && s--; data = s; return *this; }
+	GuardedCharPtr	postdecr()	{ GuardedCharPtr save(*this); --*this; return save; }
+
+	// incr/decr operators:
+	GuardedCharPtr	operator++(int)	{ return postincr(); }
+	GuardedCharPtr&	operator++()	{ return preincr(); }
+	GuardedCharPtr	operator--(int)	{ return postdecr(); }
+	GuardedCharPtr&	operator--()	{ return predecr(); }
+	long		operator-(GuardedCharPtr s)	{ return data-s.data; }
+	long		operator-(const char* s)	{ return data-s; }
 };
 
 #endif
-- 
2.43.0


From 18c87cf52102de5d253a09edf91429acf8ab86f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 55/84] fix: guarded UTF8 pointers are guarded however they
 move back

---
 include/utf8_ptr.h | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/utf8_ptr.h b/include/utf8_ptr.h
index 9aa9968..9b1e348 100644
--- a/include/utf8_ptr.h
+++ b/include/utf8_ptr.h
@@ -76,14 +76,32 @@ public:
 	GuardedUTF8Ptr(const UTF8* s) : NulGuardedUTF8Ptr(s), origin(s) {}	// Normal constructor
 	GuardedUTF8Ptr(GuardedUTF8Ptr& c) : NulGuardedUTF8Ptr(c.data), origin(c.origin) {}	// Copy constructor
 	GuardedUTF8Ptr(const GuardedUTF8Ptr& c) : NulGuardedUTF8Ptr(c.data), origin(c.origin) {}	// Copy constructor
+	GuardedUTF8Ptr&	operator=(GuardedUTF8Ptr s)	// Assignment
+			{ data = s.data; origin = s.origin; return *this; }
 
 	GuardedUTF8Ptr&	operator+=(int i)
 			{	const UTF8* s = data;
 				while (i > 0 && *s != '\0') { UTF8Get(s); i--;}		// Advance
-				while (i < 0 && s > origin) { s = UTF8Backup(s); i++;}	// Or backup
+				while (i < 0 && s > origin) { s = UTF8Backup(s, origin); i++;}	// Or backup
 				data = (const UTF8*)s; return *this;
 			}
-	GuardedUTF8Ptr&	predecr()	{ !at_bot() && (data = (const UTF8*)UTF8Backup(data)); return *this; }
+	GuardedUTF8Ptr	operator+(int i){ GuardedUTF8Ptr t(*this); t += i; return t; }
+	GuardedUTF8Ptr	operator-=(int i){ return *this += -i; }
+	GuardedUTF8Ptr	operator-(int i){ GuardedUTF8Ptr t(*this); t += -i; return t; }
+
+	// incr/decr functions:
+	GuardedUTF8Ptr&	preincr()	{ NulGuardedUTF8Ptr::preincr(); return *this; }
+	GuardedUTF8Ptr	postincr()	{ GuardedUTF8Ptr save(*this); ++*this; return save; }
+	GuardedUTF8Ptr&	predecr()	{ !at_bot() && (data = (const UTF8*)UTF8Backup(data, origin)); return *this; }
+	GuardedUTF8Ptr	postdecr()	{ GuardedUTF8Ptr save(*this); --*this; return save; }
+
+	// incr/decr operators:
+	GuardedUTF8Ptr	operator++(int)	{ return postincr(); }
+	GuardedUTF8Ptr&	operator++()	{ return preincr(); }
+	GuardedUTF8Ptr	operator--(int)	{ return postdecr(); }
+	GuardedUTF8Ptr&	operator--()	{ return predecr(); }
+	long		operator-(GuardedUTF8Ptr s)	{ return data-s.data; }
+	long		operator-(const char* cp)	{ return data-cp; }
 	bool		at_bot()
 			{ return data == origin; }
 };
-- 
2.43.0


From 99a9685880879bb9bf10fdefef8c8c09d96bae25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:49 +0000
Subject: [PATCH 56/84] fix: rejecting one kind of group also refused the other
 kinds

---
 rx/rxcompile.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index d6560b8..f6c6857 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -375,7 +375,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			}
 
 			i += 2;	// Skip the '(?'
-			if (supported(RxFeature::Capture) && re[i] == '<')		// Capture
+			if (re[i] == '<' && supported(RxFeature::Capture))		// Capture
 			{
 				param = re.substr(++i);
 				close = param.find('>');
@@ -389,17 +389,17 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				ok = func(RxToken(RxOp::RxoNamedCapture, param));
 				break;
 			}
-			else if (supported(RxFeature::NonCapture) && re[i] == ':')	// Noncapturing group
+			else if (re[i] == ':' && supported(RxFeature::NonCapture))	// Noncapturing group
 			{
 				ok = func(RxToken(RxOp::RxoNonCapturingGroup));
 				break;
 			}
-			else if (supported(RxFeature::NegLookahead) && re[i] == '!') // Negative Lookahead
+			else if (re[i] == '!' && supported(RxFeature::NegLookahead)) // Negative Lookahead
 			{
 				ok = func(RxToken(RxOp::RxoNegLookahead));
 				break;
 			}
-			else
+			else if (!error_message)
 				error_message = "Illegal group type";
 			break;
 
-- 
2.43.0


From 59078ae7f9105bac07dd9f9342a3f181c5f58a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:56 +0000
Subject: [PATCH 57/84] fix: rejected escapes, shorthand, properties and ? were
 not refused

---
 rx/rxcompile.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index f6c6857..a201841 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -139,6 +139,8 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			break;
 
 		case '?':
+			if (!enabled(RxFeature::AnyIsQuest) && !supported(RxFeature::ZeroOrOneQuest))
+				goto simple_char;
 			if (!(ok = flush())) break;
 			if (enabled(RxFeature::AnyIsQuest))
 				ok = func(RxToken(RxOp::RxoAny));	// Shell-style any-char wildcard
@@ -205,16 +207,16 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 		case '\\':		// Escape sequence
 			switch (ch = re[++i])
 			{
-			case 'b': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\b'; goto escaped_char;
-			case 'e': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\033'; goto escaped_char;
-			case 'f': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\f'; goto escaped_char;
-			case 'n': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\n'; goto escaped_char;
-			case 't': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\t'; goto escaped_char;
-			case 'r': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\r'; goto escaped_char;
+			case 'b': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\b'; goto escaped_char;
+			case 'e': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\033'; goto escaped_char;
+			case 'f': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\f'; goto escaped_char;
+			case 'n': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\n'; goto escaped_char;
+			case 't': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\t'; goto escaped_char;
+			case 'r': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\r'; goto escaped_char;
 
 			case '0': case '1': case '2': case '3':	// Octal char constant
 			case '4': case '5': case '6': case '7':
-				if (!enabled(RxFeature::OctalChar))
+				if (!supported(RxFeature::OctalChar))
 					goto simple_escape;
 				param = re.substr(i, 3);
 				ch = param.asInt32(&int_error, 8, &scanned);
@@ -227,7 +229,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				goto escaped_char;
 
 			case 'x':			// Hex byte (1 or 2 hex digits follow)
-				if (!enabled(RxFeature::HexChar))
+				if (!supported(RxFeature::HexChar))
 					goto simple_escape;
 				// REVISIT: Support \x{XX}?
 				param = re.substr(++i, 2);
@@ -241,7 +243,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				goto escaped_char;
 
 			case 'u':			// Unicode (1-5 hex digits follow)
-				if (!enabled(RxFeature::UnicodeChar))
+				if (!supported(RxFeature::UnicodeChar))
 					goto simple_escape;
 				// REVISIT: Support \u{XX}?
 				param = re.substr(++i, 5);
@@ -258,7 +260,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			case 's':			// Whitespace
 			case 'd':			// Digit
 			case 'h':			// Hexdigit
-				if (!enabled(RxFeature::Shorthand))
+				if (!supported(RxFeature::Shorthand))
 					goto simple_escape;
 				if (!(ok = flush())) break;
 				// REVISIT: Also support \w, etc
@@ -266,7 +268,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				break;
 
 			case 'p':			// Posix character type
-				if (!enabled(RxFeature::PropertyChars))
+				if (!supported(RxFeature::PropertyChars))
 					goto simple_escape;
 				if (!(ok = flush())) break;
 				if (re[++i] != '{')
-- 
2.43.0


From f1ff8fb2efc8f6c4fd9aa59f0c3ca1f9671114be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:03 +0000
Subject: [PATCH 58/84] fix: compiling went on after an error and reported the
 wrong place and message

---
 rx/rxcompile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index a201841..71749a7 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -113,7 +113,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 
 	ok = func(RxToken(RxOp::RxoStart));
 	if (!ok) error_offset = i;
-	for (; ok && i < re.length(); i++)
+	for (; ok && !error_message && i < re.length(); i++)
 	{
 		switch (ch = re[i])
 		{
-- 
2.43.0


From 75999cedeb0de330ead6ac4ea8ee4520abd9c848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:11 +0000
Subject: [PATCH 59/84] fix: an unmatched closing parenthesis was refused
 without a message

---
 rx/rxcompile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 71749a7..559f9d0 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -636,7 +636,7 @@ RxCompiler::compile(char*& nfa)
 				goto str_param;			// This string will be in the names table of RxoStart
 
 			case RxOp::RxoEndGroup:			// End of a group
-				if (nesting <= 0)
+				if (nesting <= 1)	// Only the RxoStart is left
 				{
 					error_message = "Too many closing parentheses";
 					return false;
-- 
2.43.0


From 8e5dcd55f20c8b474d89f53933b38ba34ecefe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:19 +0000
Subject: [PATCH 60/84] fix: in extended expressions a repetition after white
 space repeated more than one character

---
 rx/rxcompile.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 559f9d0..2969ff6 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -110,6 +110,17 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				}
 				return true;
 			};
+	auto		flush_repeated = [&delayed, flush]() {	// A repetition applies to just the last delayed character
+				if (delayed.length() > 1)
+				{
+					StrVal	last = delayed.tail(1);
+					delayed = delayed.shorter(1);
+					if (!flush())
+						return false;
+					delayed = last;
+				}
+				return flush();
+			};
 
 	ok = func(RxToken(RxOp::RxoStart));
 	if (!ok) error_offset = i;
@@ -141,7 +152,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 		case '?':
 			if (!enabled(RxFeature::AnyIsQuest) && !supported(RxFeature::ZeroOrOneQuest))
 				goto simple_char;
-			if (!(ok = flush())) break;
+			if (!(ok = flush_repeated())) break;
 			if (enabled(RxFeature::AnyIsQuest))
 				ok = func(RxToken(RxOp::RxoAny));	// Shell-style any-char wildcard
 			else
@@ -151,7 +162,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 		case '*':
 			if (!supported(RxFeature::ZeroOrMore))
 				goto simple_char;
-			if (!(ok = flush())) break;
+			if (!(ok = flush_repeated())) break;
 			if (enabled(RxFeature::ZeroOrMoreAny))
 				ok = func(RxToken(RxOp::RxoAny));
 			ok = func(RxToken(RxOp::RxoRepetition, 0, 0));
@@ -160,14 +171,14 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 		case '+':
 			if (!supported(RxFeature::OneOrMore))
 				goto simple_char;
-			if (!(ok = flush())) break;
+			if (!(ok = flush_repeated())) break;
 			ok = func(RxToken(RxOp::RxoRepetition, 1, 0));
 			break;
 
 		case '{':
 			if (!supported(RxFeature::CountRepetition))
 				goto simple_char;
-			if (!(ok = flush())) break;
+			if (!(ok = flush_repeated())) break;
 			param = re.substr(++i);
 			min = max = 0;
 			// Find the end of the first number:
@@ -302,7 +313,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 		case '[':		// Character class
 			if (!supported(RxFeature::CharClasses))
 				goto simple_char;
-			if (!(ok = flush())) break;
+			if (!(ok = flush_repeated())) break;
 
 			/*
 			 * A Character class is compiled as a string containing pairs of characters.
-- 
2.43.0


From e2ede979b86a9dee32bca36946a1ed48ccba6442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:13 +0000
Subject: [PATCH 61/84] fix: an open-ended repetition counted on without limit,
 taking time cubic in the text

---
 rx/rxmatch.cpp | 14 ++++++++------
 rx/strregex.h  |  2 +-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index b7c1324..c17d335 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -39,7 +39,7 @@ public:
 	int		counterNum() const { return counters_used/2; }
 	int		counterGet(int i) const { return reserved() ? values[counterBase()+counters_used - i*2 - 1] : 0; }
 	void		counterPushZero(StrValIndex offset);
-	StrValIndex 	counterIncr(StrValIndex offset);
+	StrValIndex 	counterIncr(StrValIndex offset, StrValIndex limit);
 	void		counterPop();
 	const RxResult::Counter	counterTop();
 
@@ -378,7 +378,7 @@ next:
 	{
 		RxResult::Counter	previous = thread.result.counterTop();
 
-		short	counter = thread.result.counterIncr(offset);
+		short	counter = thread.result.counterIncr(offset, instr.repetition.max ? 0 : instr.repetition.min);
 
 		// Don't repeat unless the offset has increased since the last repeat (instead, just continue with next).
 		if (previous.offset == offset)
@@ -681,13 +681,15 @@ RxCaptures::counterPushZero(StrValIndex offset)
 }
 
 StrValIndex
-RxCaptures::counterIncr(StrValIndex offset)
+RxCaptures::counterIncr(StrValIndex offset, StrValIndex limit)
 {
 	reserve();
 	assert(counters_used > 0);
 	// TRACK(("Incrementing counter %d = %d\n", counters_used-1, values.at(counterBase()+counters_used-1)+1));
 	values.at(counterBase()+counters_used-2) = offset;
-	return ++values.at(counterBase()+counters_used-1);
+	if (limit == 0 || values.at(counterBase()+counters_used-1) < limit)	// Don't tell counts apart where that makes no difference
+		++values.at(counterBase()+counters_used-1);
+	return values.at(counterBase()+counters_used-1);
 }
 
 void
@@ -855,11 +857,11 @@ RxResult::counterPushZero(StrValIndex offset)	// Push a zero counter
 }
 
 StrValIndex
-RxResult::counterIncr(StrValIndex offset)	// Increment and return top counter of stack
+RxResult::counterIncr(StrValIndex offset, StrValIndex limit)	// Increment (but not beyond any limit) and return top counter of stack
 {
 	Unshare();
 	assert(captures);
-	return captures->counterIncr(offset);
+	return captures->counterIncr(offset, limit);
 }
 
 void
diff --git a/rx/strregex.h b/rx/strregex.h
index 5338b53..251b99b 100644
--- a/rx/strregex.h
+++ b/rx/strregex.h
@@ -209,7 +209,7 @@ public:
 	bool		countersSame(RxResult& other) const;
 	int		counterGet(int = 0) const;		// get the nth top counter
 	void		counterPushZero(StrValIndex offset);	// Push a zero counter at this offset
-	StrValIndex	counterIncr(StrValIndex offset);	// Increment and return top counter of stack
+	StrValIndex	counterIncr(StrValIndex offset, StrValIndex limit = 0);	// Increment (but not beyond any limit) and return top counter of stack
 	void		counterPop();		// Discard the top counter of the stack
 	const Counter	counterTop();		// Top counter value, if any
 
-- 
2.43.0


From c1dd9c0099edd6c40a54016bebd8f36766aa43b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:39 +0000
Subject: [PATCH 62/84] fix: the matcher tried every combination of empty
 alternatives, taking time exponential in the expression

---
 rx/rxmatch.cpp | 49 ++++++++++++++++++++++++++++++-------------------
 rx/strregex.h  |  1 +
 2 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index c17d335..5f9fa9e 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -38,6 +38,7 @@ public:
 
 	int		counterNum() const { return counters_used/2; }
 	int		counterGet(int i) const { return reserved() ? values[counterBase()+counters_used - i*2 - 1] : 0; }
+	StrValIndex	counterOffset(int i) const { return reserved() ? values[counterBase()+counters_used - i*2 - 2] : 0; }
 	void		counterPushZero(StrValIndex offset);
 	StrValIndex 	counterIncr(StrValIndex offset, StrValIndex limit);
 	void		counterPop();
@@ -92,12 +93,8 @@ private:
 	std::vector<Thread>	current_threads;	// The threads we're currently evaluating
 	std::vector<Thread>	next_threads;		// The threads that lead on from here
 
-	struct Shunt {				// The shunts we've followed at this offset, most recent first
-		RxStationID	station;
-		RxResult	result;		// For the counters
-		const Shunt*	previous;
-	};
-	void		addthread(Thread thread, StrValIndex offset, const Shunt* shunts = 0);
+	std::vector<Thread>	shunts;			// Everything we've already followed to get next_threads
+	void		addthread(Thread thread, StrValIndex offset);
 };
 
 static int32_t zagzig(int32_t i)
@@ -302,17 +299,17 @@ int	RxMatch::Thread::next_thread = 0;	// Sequential thread numbering to aid in d
 #endif
 
 void
-RxMatch::addthread(Thread thread, StrValIndex offset, const Shunt* previous_shunts)
+RxMatch::addthread(Thread thread, StrValIndex offset)
 {
-	// Recursion control, prevents stack explosion on empty loops
-	for (const Shunt* shunt = previous_shunts; shunt; shunt = shunt->previous)
-		if (shunt->station == thread.station
-		 && shunt->result.countersSame(thread.result))
+	// Follow each path just once. Prevents stack explosion on empty loops, and trying every combination of empty alternates
+	for (size_t i = 0; i < shunts.size(); i++)
+		if (shunts[i].station == thread.station
+		 && shunts[i].result.countersSame(thread.result, offset))
 		{
-			TRACK(("\t\tthread %d would recurse\n", thread.thread_number));
+			TRACK(("\t\tthread %d has been here before\n", thread.thread_number));
 			return;
 		}
-	const Shunt	shunts = { thread.station, thread.result, previous_shunts };
+	shunts.push_back(thread);
 
 	/*
 	 * If the opcode at the new thread won't consume text, evaluate it either by looping (tail recursion) or a recursive call
@@ -345,8 +342,8 @@ next:
 
 	case RxOp::RxoSplit:
 		// REVISIT: For non-greedy repetition, we need these addthread calls in opposite order (same for RxoCount)
-		addthread(Thread(instr.alternate, thread.result), offset, &shunts);
-		addthread(Thread(instr.next, thread.result, &thread), offset, &shunts);
+		addthread(Thread(instr.alternate, thread.result), offset);
+		addthread(Thread(instr.next, thread.result, &thread), offset);
 		break;
 
 	case RxOp::RxoCaptureStart:
@@ -368,7 +365,7 @@ next:
 		for (int nested = 1; nested > 0; nested += count.op == RxOp::RxoZero ? 1 : count.op == RxOp::RxoCount ? -1 : 0)
 			program.decode(count.next, count);
 		if (count.repetition.min == 0)
-			addthread(Thread(count.next, thread.result), offset, &shunts);
+			addthread(Thread(count.next, thread.result), offset);
 	}
 		thread.result.counterPushZero(offset);
 		thread = Thread(instr.next, thread.result, &thread);
@@ -386,14 +383,14 @@ next:
 
 		if ((counter <= instr.repetition.max || instr.repetition.max == 0)	// Greedily repeat
 		 && previous.offset < offset)		// Only if we advanced
-			addthread(Thread(instr.alternate, thread.result), offset, &shunts);
+			addthread(Thread(instr.alternate, thread.result), offset);
 
 		if ((counter >= instr.repetition.min || previous.offset == offset)	// Reached minimum count, or will without advancing
 		 && (instr.repetition.max == 0 || counter <= instr.repetition.max))
 		{
 			RxResult	continuation = thread.result;
 			continuation.counterPop();	// The continuing thread has no further need of the counter
-			addthread(Thread(instr.next, continuation, &thread), offset, &shunts);
+			addthread(Thread(instr.next, continuation, &thread), offset);
 		}
 		thread.result.clear();
 	}
@@ -410,7 +407,7 @@ next:
 		{
 			// Not matched, as requested, so continue with the next instruction at the current offset
 			TRACK(("\t\tthread %d negative lookahead failed, so we can continue at offset %d\n", thread.thread_number, offset));
-			addthread(Thread(instr.alternate, thread.result, &thread), offset, &shunts);
+			addthread(Thread(instr.alternate, thread.result, &thread), offset);
 		}
 		else
 			TRACK(("\t\thread %d negative lookahead succeeded, abandon ship\n", thread.thread_number));
@@ -456,8 +453,10 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 
 	// Start where directed, and step forward one character at a time, following all threads until successful or there are no threads left
 	next_threads.clear();
+	shunts.clear();
 	addthread(Thread(start, RxResult(program.maxCounter(), program.maxCapture())), offset);
 	current_threads.swap(next_threads);
+	shunts.clear();
 	for (; current_threads.size() > 0 && offset <= target.length(); offset++)
 	{
 		TRACK(("\ncycle at offset %d with %d threads looking at '%s'\n", offset, (int)current_threads.size(), target.substr(offset, 1).asUTF8()));
@@ -634,6 +633,7 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 
 		current_threads.swap(next_threads);
 		next_threads.clear();
+		shunts.clear();
 	}
 
 	// If we have a result, it's in `result`.
@@ -836,6 +836,17 @@ RxResult::countersSame(RxResult& other) const
 	return true;
 }
 
+bool
+RxResult::countersSame(RxResult& other, StrValIndex offset) const
+{
+	if (!countersSame(other))
+		return false;
+	for (int i = 0; i < counterNum(); i++)	// Have both proceeded since the start of this repetition, or neither?
+		if ((captures->counterOffset(i) == offset) != (other.captures->counterOffset(i) == offset))
+			return false;
+	return true;
+}
+
 int
 RxResult::counterNum() const	// How many counters are in use?
 {
diff --git a/rx/strregex.h b/rx/strregex.h
index 251b99b..26bc1ce 100644
--- a/rx/strregex.h
+++ b/rx/strregex.h
@@ -207,6 +207,7 @@ public:
 	int		counterNum() const;	// How many counters are in use?
 	bool		hasCounter() const { return counterNum() > 0; }
 	bool		countersSame(RxResult& other) const;
+	bool		countersSame(RxResult& other, StrValIndex offset) const;	// and which of them started at this offset?
 	int		counterGet(int = 0) const;		// get the nth top counter
 	void		counterPushZero(StrValIndex offset);	// Push a zero counter at this offset
 	StrValIndex	counterIncr(StrValIndex offset, StrValIndex limit = 0);	// Increment (but not beyond any limit) and return top counter of stack
-- 
2.43.0


From 1c46270f188dddb64ef556fc9baeb6b3be60c563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:39 +0000
Subject: [PATCH 63/84] fix: an offset that needs a byte less once moved was
 compiled one too far

---
 rx/rxcompile.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 2969ff6..caa8518 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -832,14 +832,17 @@ RxCompiler::compile(char*& nfa)
 			 * Patch the offset there to point to offset_to.
 			 * If the offset fits in fewer than offset_max_bytes UTF-8 bytes, we must shuffle down.
 			 * This reduces the offset, which can cause it to cross a UTF-8 coding boundary,
-			 * taking one fewer bytes, a process that can only happen once(?).
+			 * taking fewer bytes, which reduces it again.
 			 */
 			int		offset = offset_to - patch_location;
-			StrValIndex	byte_count = UTF8Len(zigzag(offset));
-			StrValIndex	shrinkage = offset_max_bytes - byte_count;
-			if (byte_count < offset_max_bytes	// We'll shuffle
-			 && patch_location < offset_to)		// And the patch location is prior to the target
-				offset -= shrinkage;		// The offset is now smaller
+			if (patch_location < offset_to)		// The patch location is prior to the target
+			{
+				// Use the fewest bytes that hold the offset as it is after shuffling down that far
+				StrValIndex	byte_count = 1;
+				while (UTF8Len(zigzag(offset - (int)(offset_max_bytes - byte_count))) > byte_count)
+					byte_count++;
+				offset -= offset_max_bytes - byte_count;
+			}
 
 			return patch_value_at(patch_location, offset);
 		};
-- 
2.43.0


From 57ed409cd45f0fad29c9f426870e1d916b4c84c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:07 +0000
Subject: [PATCH 64/84] fix: matching text beyond ASCII searched it from the
 start for every character, taking time quadratic in the text

---
 include/strval.h | 9 ++++++++-
 rx/rxmatch.cpp   | 8 +++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 7235097..4e1e539 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -434,10 +434,17 @@ public:
 
 	// Access the characters and character value:
 	UCS4		operator[](int charNum) const
+			{
+				Bookmark	unsaved = mark;
+				return charAt(charNum, unsaved);
+			}
+	UCS4		charAt(int charNum, Bookmark& from) const	// The same, from (and moving) the caller's bookmark
 			{
 				if (charNum == length())
 					return '\0';
-				const char*	cp = nthChar(charNum);
+				if (charNum < 0 || charNum > length())
+					return UCS4_NONE;
+				const char*	cp = body->nthChar(offset+charNum, from);
 				if (!cp)
 					return UCS4_NONE;
 				return body->isRawBinary() ? *cp : UTF8Get(cp);
diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index 5f9fa9e..c3271e8 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -87,6 +87,7 @@ public:
 private:
 	const RxProgram& program;		// The NFA to execute
 	StrVal		target;			// The string we are searching
+	StrBookmark<>	mark;			// where we last looked at it
 	RxResult	result;			// Result from the successful thread
 
 	// Concurrent threads of execution:
@@ -268,6 +269,7 @@ RxMatch::RxMatch(const RxProgram& _program, StrVal _target)
 RxMatch::RxMatch(const RxMatch& _tocopy)
 : program(_tocopy.program)
 , target(_tocopy.target)
+, mark(_tocopy.mark)
 {
 	int	i = program.maxStation();
 	current_threads.reserve(i);
@@ -320,7 +322,7 @@ next:
 	switch (instr.op)
 	{
 	case RxOp::RxoBOL:			// Beginning of Line
-		if (offset == 0 || target[offset-1] == '\n')
+		if (offset == 0 || target.charAt(offset-1, mark) == '\n')
 		{
 			thread.station = instr.next;
 			goto next;
@@ -329,7 +331,7 @@ next:
 
 	case RxOp::RxoEOL:			// End of Line
 		if (offset == target.length()	// REVISIT: If the input can be extended, this condition will become false
-		 || target[offset] == '\n')
+		 || target.charAt(offset, mark) == '\n')
 		{
 			thread.station = instr.next;
 			goto next;
@@ -464,7 +466,7 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 		{
 			RxStationID	pc = thread_p->station;
 			program.decode(pc, instr);
-			UCS4		ch = target[offset];
+			UCS4		ch = target.charAt(offset, mark);
 			enum {
 				failed,
 				eof,
-- 
2.43.0


From bbbf24fb57d9a8d8fa3aa324e23266febffc8d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 65/84] fix: the offsets of a repetition that need a byte less
 once moved were compiled wrong

---
 rx/rxcompile.cpp | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index caa8518..53bb14a 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -1071,31 +1071,28 @@ RxCompiler::compile(char*& nfa)
 				 */
 				if (instr.repetition.min == 0 && instr.repetition.max == 0)
 				{
-					char*	cp;
 					insert_split(last_atom_start-nfa);
 					*ep++ = (char)RxOp::RxoJump;
-					cp = ep;	// Remember where we put the jump offset
 
 					/*
 					 * The offset in the split has the same magnitude as the negative one in the jump,
 					 * but zigzag coding means the negative integer is one more than the positive.
 					 * It might therefore take one more byte (at the boundary of UTF8 coding).
+					 * Each offset reaches over both, so find the fewest bytes that suffice for both.
 					 */
-					StrValIndex	fwd_bytes = offset_max_bytes, rev_bytes = offset_max_bytes, last_rev;
-					int		delta;		// offset value for the Split
-					int		rev_delta;	// offset value for the Jump
-					do {
-						// last_atom_start+1 is the location of the Split offset
-						// ep+rev_bytes is our guess at its target
-						delta = (ep+rev_bytes) - (last_atom_start+1);	// The forward split offset
-						fwd_bytes = UTF8Len(zigzag(delta));
-						rev_delta = last_atom_start - (ep-(offset_max_bytes-fwd_bytes));
-						last_rev = rev_bytes;
-						rev_bytes = UTF8Len(zigzag(rev_delta));
-					} while (rev_bytes < last_rev);
-
+					int		content_bytes = ep - (last_atom_start+1+offset_max_bytes);	// Between the offsets
+					StrValIndex	fwd_bytes = 1, rev_bytes = 1;
+					for (;;)
+						if (UTF8Len(zigzag(fwd_bytes+content_bytes+rev_bytes)) > fwd_bytes)
+							fwd_bytes++;
+						else if (UTF8Len(zigzag(-(int)(1+fwd_bytes+content_bytes))) > rev_bytes)
+							rev_bytes++;
+						else
+							break;
+
+					// last_atom_start+1 is the location of the Split offset, which points after the Jump
 					patch_offset(last_atom_start+1-nfa, ep+rev_bytes-nfa);
-					emit_offset(ep, rev_delta);
+					emit_offset(ep, last_atom_start - ep);
 				}
 				else if (instr.repetition.min == 0 && instr.repetition.max == 1)
 				{
-- 
2.43.0


From 6cf7b644cef8ce67a83858600cc5056b1b7002d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:47 +0000
Subject: [PATCH 66/84] fix: a program for many stations was compiled past the
 end of its memory

---
 rx/rxcompile.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 53bb14a..63b31d8 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -565,7 +565,7 @@ RxCompiler::compile(char*& nfa)
 
 			case RxOp::RxoStart:			// Place to start the DFA
 				bytes_required += 2+3;		// RxoCaptureStart 0, max_nesting, max_capture, num_names
-				offsets_required += 3;		// search_station, start_station, station_count
+				offsets_required += 2;		// search_station, start_station. station_count gets added later
 				// Names will get added later
 				station_count = 0;
 				push(instr.op, 0);
@@ -739,6 +739,8 @@ RxCompiler::compile(char*& nfa)
 	if (!ok)
 		return false;
 
+	bytes_required += UTF8Len(2*station_count);	// This may need more bytes than an offset
+
 	// What is a maximum sufficient size (in bytes) of an offset, if all offsets were the maximum 4 bytes?
 	// Note that zig-zag encoding means an offset may be twice the maximum size of the NFA.
 	StrValIndex	offset_max_bytes = UTF8Len(2*(bytes_required+offsets_required*4));	// Upper limit on offset size
-- 
2.43.0


From a9040315ff4163c9d03b343ab8945caec2292dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:42 +0000
Subject: [PATCH 67/84] fix: nothing was found after a NUL character in the
 text, and none was any character

---
 rx/rxmatch.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index c3271e8..dcea1bf 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -491,7 +491,7 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 			case RxOp::RxoAny:			// Any single char
 				// As long as we aren't at the end, all is good
 				// REVISIT: Add except-newline mode behaviour
-				if (ch != 0)
+				if (offset < target.length())
 					break;
 				step_status = eof;
 				break;
@@ -506,7 +506,7 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 			case RxOp::RxoCharClass:		// Character class
 			case RxOp::RxoNegCharClass:		// Negated Character class
 			{
-				if (ch == 0)
+				if (offset >= target.length())
 				{
 					step_status = eof;
 					break;
@@ -532,7 +532,7 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 
 			case RxOp::RxoCharProperty:		// A character with a named Unicode property
 			{
-				if (ch == 0)
+				if (offset >= target.length())
 				{
 					step_status = eof;
 					break;
-- 
2.43.0


From 1bf952b92d621ae3d770c04da90fb7d87d106f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:24 +0000
Subject: [PATCH 68/84] fix: a padded zero started with the lead byte of a
 longer character

---
 include/char_encoding.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/char_encoding.h b/include/char_encoding.h
index 2998acf..e48defc 100644
--- a/include/char_encoding.h
+++ b/include/char_encoding.h
@@ -256,7 +256,7 @@ UTF8PutPaddedZero(UTF8*& cp, int length)
 	assert(length >= 0 && length <= 6);
 	if (length > 1)
 	{
-		*cp++ = "\x0\xC0\xE0\xF0\xF8\xFC"[length];	// Put lead byte with zero payload
+		*cp++ = "\x0\x0\xC0\xE0\xF0\xF8\xFC"[length];	// Put lead byte with zero payload
 		while (--length > 0)
 			*cp++ = 0x80;				// Put trailing bytes with zero payload
 	}
-- 
2.43.0


From 62ba14af79b50fb095d7f4247d0d28ce9df024ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:28 +0000
Subject: [PATCH 69/84] fix: the program for an expression with a NUL character
 ended there, as a C string

---
 rx/rxcompile.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 63b31d8..d3ec415 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -583,6 +583,9 @@ RxCompiler::compile(char*& nfa)
 				is_atom = true;
 				bytes_required += instr.str.length();	// One RxoChar for each char
 				bytes_required += instr.str.numBytes();	// and the data
+				for (int i = 0; i < instr.str.length(); i++)
+					if (instr.str[i] == '\0')
+						bytes_required++;	// A NUL takes two bytes
 				// REVISIT: This is pessimistic. A string has one station plus the number of times its prefix re-occurs
 				station_count += instr.str.numBytes();
 				break;
@@ -971,7 +974,10 @@ RxCompiler::compile(char*& nfa)
 				for (int i = 0; i < instr.str.length(); i++)
 				{		// Emit each character one at a time
 					*ep++ = (char)RxOp::RxoChar;
-					UTF8Put(ep, instr.str[i]);
+					if (instr.str[i] == '\0')
+						UTF8PutPaddedZero(ep, 2);	// The NFA is NUL-terminated
+					else
+						UTF8Put(ep, instr.str[i]);
 				}
 				break;
 
-- 
2.43.0


From beb94ff6c81e49b8f95f5d666b4b5c95814b7f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:50 +0000
Subject: [PATCH 70/84] fix: JSON has no escape \0 for a NUL character

---
 include/strval.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 4e1e539..c839573 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -1188,8 +1188,6 @@ StrBodyI<Index>::toJSON()
 			char*	op = one_char;		// Pack it into our local buffer
 			switch (ch)
 			{
-			case '\0':	// Null Byte
-				*op++ = '\\'; *op++ = '0'; break;
 			case '\"':	// Double quote
 				*op++ = '\\'; *op++ = '\"'; break;
 			case '\\':	// Backslash character
-- 
2.43.0


From 399015f102f07e87704071bcc94c5e37a81fc450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:29 +0000
Subject: [PATCH 71/84] fix: numeric escapes took a sign or white space as part
 of the number

---
 rx/rxcompile.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index d3ec415..d9b475c 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -122,6 +122,23 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				return flush();
 			};
 
+	auto		number = [this](StrValIndex start, StrValIndex max_digits, int radix) {
+				// Just the digits of a numeric escape. White space or a sign is not part of it
+				StrVal		digits = re.substr(start, max_digits);
+				StrValIndex	num = 0;
+				for (; num < digits.length(); num++)
+				{
+					UCS4	digit = digits[num];
+					if ((digit | 0x20) >= 'a' && (digit | 0x20) <= 'f')
+						digit = (digit | 0x20) - 'a' + 10;
+					else
+						digit = UCS4Digit(digit);	// Out of range if it's not a digit
+					if (digit >= (UCS4)radix)
+						break;
+				}
+				return digits.head(num);
+			};
+
 	ok = func(RxToken(RxOp::RxoStart));
 	if (!ok) error_offset = i;
 	for (; ok && !error_message && i < re.length(); i++)
@@ -229,7 +246,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			case '4': case '5': case '6': case '7':
 				if (!supported(RxFeature::OctalChar))
 					goto simple_escape;
-				param = re.substr(i, 3);
+				param = number(i, 3, 8);
 				ch = param.asInt32(&int_error, 8, &scanned);
 				if ((int_error && int_error != STRERR_TRAIL_TEXT) || scanned == 0)
 				{
@@ -243,7 +260,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				if (!supported(RxFeature::HexChar))
 					goto simple_escape;
 				// REVISIT: Support \x{XX}?
-				param = re.substr(++i, 2);
+				param = number(++i, 2, 16);
 				ch = param.asInt32(&int_error, 16, &scanned);
 				if ((int_error && int_error != STRERR_TRAIL_TEXT) || scanned == 0)
 				{
@@ -257,7 +274,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				if (!supported(RxFeature::UnicodeChar))
 					goto simple_escape;
 				// REVISIT: Support \u{XX}?
-				param = re.substr(++i, 5);
+				param = number(++i, 5, 16);
 				ch = param.asInt32(&int_error, 16, &scanned);
 				if ((int_error && int_error != STRERR_TRAIL_TEXT) || scanned == 0)
 				{
-- 
2.43.0


From f7686eaa8ada9b92b1708d119e617a8e28783558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:33 +0000
Subject: [PATCH 72/84] fix: a backslash at the end of a regular expression
 matched a NUL character

---
 rx/rxcompile.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index d9b475c..b918fe1 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -233,7 +233,12 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			break;
 
 		case '\\':		// Escape sequence
-			switch (ch = re[++i])
+			if (++i >= re.length())
+			{
+				error_message = "Nothing follows the backslash";
+				break;
+			}
+			switch (ch = re[i])
 			{
 			case 'b': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\b'; goto escaped_char;
 			case 'e': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\033'; goto escaped_char;
-- 
2.43.0


From 8b0d9c19d8cd31cab9da2afec21bf5d3020b5157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:56 +0000
Subject: [PATCH 73/84] fix: collecting repeated captures copied the whole
 array for each one

---
 include/peg_ast.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/peg_ast.h b/include/peg_ast.h
index 5adfd3f..267740f 100644
--- a/include/peg_ast.h
+++ b/include/peg_ast.h
@@ -166,9 +166,10 @@ public:
 			if (existing.type() != Variant::VarArray)
 				existing = Variant(&existing, 1);	// Convert it to an array
 			VariantArray va = existing.as_variant_array();
-			va += value;		// This Unshares va from the entry stored in the map, so
-			ast.put(key, va);	// replace it with this value
-			existing = ast[key];
+			existing = Variant();	// Let go of the other references to this array, so we
+			ast.put(key, existing);	// can append to it without making a copy each time
+			va += value;
+			ast.put(key, va);
 		}
 		else	// Insert the match as the first element in an array, or just as itself:
 		{
@@ -205,6 +206,7 @@ public:
 				continue;
 			}
 			VariantArray	va = ast[undo.key].as_variant_array();
+			ast.put(undo.key, Variant());	// So we don't need to copy the array
 			(void)va.pull();
 			ast.put(undo.key, undo.how == Undo::Single ? va[0] : Variant(va));
 		}
-- 
2.43.0


From 77bee3680fca8b025abfdc51557d8c8c3ddd656e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:10 +0000
Subject: [PATCH 74/84] fix: elements removed from an unshared array kept their
 space, and it grew without bound

---
 include/array.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/array.h b/include/array.h
index c3727e5..1034ef9 100644
--- a/include/array.h
+++ b/include/array.h
@@ -458,7 +458,16 @@ private:
 	void		Unshare(Index extra = 0)	// Get our own copy of Body that we can safely mutate
 			{
 				if (body && body->GetRefCount() <= 1)
+				{		// Nobody else can see the elements outside this slice. Make their space available
+					if (offset+num_elements < body->length())
+						body->remove(offset+num_elements);
+					if (offset > num_elements)	// There were more elements removed at the start than are left
+					{
+						body->remove(0, offset);
+						offset = 0;
+					}
 					return;
+				}
 
 				// Copy only this slice of the body's data, and reset our offset to zero
 				body = new Body(asElements(), true, num_elements, num_elements+extra);
-- 
2.43.0


From d34b618e2c2c9c8f0acf8d25d5e5f9e72336dac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:17 +0000
Subject: [PATCH 75/84] fix: growing an array near the limit of its Index
 overflowed the allocation

---
 include/array.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/array.h b/include/array.h
index 1034ef9..95d01f8 100644
--- a/include/array.h
+++ b/include/array.h
@@ -613,12 +613,15 @@ protected:
 				if (minimum <= num_alloc)
 					return;		// Never release memory on a downsize
 
+				assert(minimum == (Index)minimum);	// Ensure the Index can count it
 				minimum = ((minimum-1)|0x7)+1;	// round up to multiple of 8
-				Index		new_alloc = num_alloc;
+				size_t		new_alloc = num_alloc;
 				if (new_alloc)	// Minimum growth 50% rounded up to nearest 16
 					new_alloc = ((new_alloc*3/2) | 0xF) + 1;
 				if (new_alloc < minimum)
 					new_alloc = minimum;		// Still not enough, get enough
+				if (new_alloc > (Index)~(Index)0)
+					new_alloc = (Index)~(Index)0;	// The Index can't count any more
 				Element*	newdata = new Element[new_alloc];	// May throw, so change nothing first
 				if (start)
 				{
-- 
2.43.0


From 354a25106ce2f64dc64ad74c4ecaba5f0e748739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:23 +0000
Subject: [PATCH 76/84] fix: searching text beyond ASCII took quadratic time

---
 include/strval.h | 55 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index c839573..34f0f88 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -515,8 +515,9 @@ public:
 	int		find(UCS4 ch, int after = -1) const
 			{
 				Index		n = after+1;		// First Index we'll look at
+				Bookmark	from = mark;	// Where we are in the text
 				const char*	up;
-				while (n < length() && (up = nthChar(n)) != 0)
+				while (n < length() && (up = nthChar(n, from)) != 0)
 				{
 					if (ch == getChar(up))
 						return n;		// Found at n
@@ -528,8 +529,9 @@ public:
 	int		rfind(UCS4 ch, int before = -1) const
 			{
 				Index		n = (before == -1 ? length() : before)-1; // First Index we'll look at
+				Bookmark	from = mark;	// Where we are in the text
 				const char*	bp;
-				while ((bp = nthChar(n)) != 0)
+				while ((bp = nthChar(n, from)) != 0)
 				{
 					if (ch == getChar(bp))
 						return n;		// Found at n
@@ -546,12 +548,15 @@ public:
 					return -1;
 				Index		n = after+1;		// First Index we'll look at
 				Index		last_start = length()-s1.length();	// Last possible start position
-				const char*	s1start = s1.nthChar(0);
+				Index		s1bytes;
+				const char*	s1start = s1.asUTF8(s1bytes);
+				const char*	ep = nthChar(length());
+				Bookmark	from = mark;	// Where we are in the text
 				const char*	up;
-				while (n <= last_start && (up = nthChar(n)) != 0)
+				while (n <= last_start && (up = nthChar(n, from)) != 0)
 				{
 					// REVISIT: Only works if the StrDataType matches
-					if (isAt(n, up, s1, s1start))
+					if (isAt(n, up, from, ep, s1.length(), s1start, s1bytes))
 						return n;
 					n++;
 				}
@@ -565,12 +570,15 @@ public:
 				if (n > length()-s1.length())
 					n = length()-s1.length();
 
-				const char*	s1start = s1.nthChar(0);
+				Index		s1bytes;
+				const char*	s1start = s1.asUTF8(s1bytes);
+				const char*	ep = nthChar(length());
+				Bookmark	from = mark;	// Where we are in the text
 				const char*	bp;
-				while ((bp = nthChar(n)) != 0)
+				while ((bp = nthChar(n, from)) != 0)
 				{
 					// REVISIT: Only works if the StrDataType matches
-					if (isAt(n, bp, s1, s1start))
+					if (isAt(n, bp, from, ep, s1.length(), s1start, s1bytes))
 						return n;
 					n--;
 				}
@@ -581,8 +589,9 @@ public:
 	int		findAny(const StrValI& s1, int after = -1) const
 			{
 				Index		n = after+1;		// First Index we'll look at
+				Bookmark	from = mark;	// Where we are in the text
 				const char*	up;
-				while (n < length() && (up = nthChar(n)) != 0)
+				while (n < length() && (up = nthChar(n, from)) != 0)
 				{
 					UCS4	ch = getChar(up);
 					for (Index i = 0; i < s1.length(); i++)
@@ -596,8 +605,9 @@ public:
 	int		rfindAny(const StrValI& s1, int before = -1) const
 			{
 				Index		n = before == -1 ? length()-1 : before-1;	// First Index we'll look at
+				Bookmark	from = mark;	// Where we are in the text
 				const char*	bp;
-				while ((bp = nthChar(n)) != 0)
+				while ((bp = nthChar(n, from)) != 0)
 				{
 					UCS4	ch = getChar(bp);
 					for (Index i = 0; i < s1.length(); i++)
@@ -612,8 +622,9 @@ public:
 	int		findNot(const StrValI& s1, int after = -1) const
 			{
 				Index		n = after+1;		// First Index we'll look at
+				Bookmark	from = mark;	// Where we are in the text
 				const char*	up;
-				while (n < length() && (up = nthChar(n)) != 0)
+				while (n < length() && (up = nthChar(n, from)) != 0)
 				{
 					UCS4	ch = getChar(up);
 					for (Index i = 0; i < s1.length(); i++)
@@ -629,8 +640,9 @@ public:
 	int		rfindNot(const StrValI& s1, int before = -1) const
 			{
 				Index		n = (before == -1 ? length() : before)-1;	// First Index we'll look at
+				Bookmark	from = mark;	// Where we are in the text
 				const char*	bp;
-				while ((bp = nthChar(n)) != 0)
+				while ((bp = nthChar(n, from)) != 0)
 				{
 					UCS4	ch = getChar(bp);
 					for (Index i = 0; i < s1.length(); i++)
@@ -807,7 +819,13 @@ protected:
 				if (char_num < 0 || char_num > length())
 					return 0;
 				Bookmark	unsaved = mark;
-				return body->nthChar(offset+char_num, unsaved);
+				return nthChar(char_num, unsaved);
+			}
+	const char*	nthChar(Index char_num, Bookmark& from) const	// The same, from (and moving) the caller's bookmark
+			{
+				if (char_num < 0 || char_num > length())
+					return 0;
+				return body->nthChar(offset+char_num, from);
 			}
 	const char*	nthChar(Index char_num)	// Return a pointer to the start of the nth character
 			{
@@ -827,12 +845,11 @@ private:
 					return *cp++;
 				return UTF8Get(cp);
 			}
-	bool		isAt(Index n, const char* up, const StrValI& s1, const char* s1start) const
-			{	// s1, at s1start, is found at up, our nth character, and ends with one of our characters
-				Index		bytes = s1.numBytes();
-				return bytes <= (Index)(nthChar(length())-up)
-				 && memcmp(up, s1start, bytes) == 0
-				 && nthChar(n+s1.length()) == up+bytes;
+	bool		isAt(Index n, const char* up, Bookmark from, const char* ep, Index chars, const char* s1start, Index s1bytes) const
+			{	// The s1bytes at s1start are found at up, our nth character, and end with one of our characters
+				return s1bytes <= (Index)(ep-up)
+				 && memcmp(up, s1start, s1bytes) == 0
+				 && nthChar(n+chars, from) == up+s1bytes;
 			}
 	void		copyBody()
 			{
-- 
2.43.0


From 9bbabfde3689cd37282cfe05daa701e07ce81a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:29 +0000
Subject: [PATCH 77/84] fix: appending to a string counted all its characters
 again each time

---
 include/strval.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 34f0f88..e4839a8 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -185,11 +185,11 @@ public:
 	char*		endChar() const { return start+num_elements-1; }
 private:		// Prevent accidental use of Array insert by outsiders
 	void		insert(Index pos, const char* addend, Index len) { Body::insert(pos, addend, len); }
-public:	void		insertBytes(Index pos, const char* addend, Index len)
+public:	void		insertBytes(Index pos, const char* addend, Index len, Index chars = 0)
 			{
 				Body::insert(pos, addend, len);
 				if (!isRawBinary())
-					num_chars = 0;	// Force a re-count
+					num_chars = chars;	// How many characters there are now; zero to force a re-count
 			}
 	void		transform(const std::function<Val(const char*& cp, const char* ep)> xform, int after = -1);
 	void		toLower()
@@ -740,8 +740,8 @@ public:
 				const char*	ap = addend.asUTF8(addend_length);
 				const char*	at = nthChar(pos);
 				// Parts of damaged UTF-8 can make different characters when they're put together
-				bool		joins = addend_length > 0 && (UTF8Is2nd(*ap) || UTF8Is2nd(*at));
-				body->insertBytes(at-nthChar(0), ap, addend_length);
+				bool		joins = addend_length > 0 && (UTF8Is2nd(*ap) || UTF8Is2nd(*at) || addend.body->isRawBinary());
+				body->insertBytes(at-nthChar(0), ap, addend_length, joins ? 0 : num_chars+addend.length());
 				if (joins || mark.char_num > pos)	// The bookmark was after the insertion point
 					mark = Bookmark();
 				if (joins)
-- 
2.43.0


From ec151e29d5bb9a32847e4255e08f45990e250af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:08 +0000
Subject: [PATCH 78/84] fix: the digits outside the ranges table were never
 found

---
 src/char_encoding.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/char_encoding.cpp b/src/char_encoding.cpp
index 5070720..fa64f20 100644
--- a/src/char_encoding.cpp
+++ b/src/char_encoding.cpp
@@ -115,7 +115,7 @@ UCS4Digit(UCS4 ch)
 	)
 	{
 		if (ch < rp->low)
-			return -1;		/* Short circuit */
+			break;			/* Short circuit, it's not in the table */
 		if (ch <= rp->high)
 		{
 			last_memo = rp-UCS4_DigitRanges;
-- 
2.43.0


From d507707474bbb93a6a556a43c48c9729d58c95b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:14 +0000
Subject: [PATCH 79/84] fix: title-case letters were mapped to upper case by
 UCS4ToTitle

---
 src/case_conversions.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/case_conversions.c b/src/case_conversions.c
index 6a434bc..a3e9101 100644
--- a/src/case_conversions.c
+++ b/src/case_conversions.c
@@ -834,12 +834,16 @@ static struct
 } UnicodeToTitle[] =
 {
       {	0x01C4,	1 },
+      {	0x01C5,	0 },
       {	0x01C6,	-1 },
       {	0x01C7,	1 },
+      {	0x01C8,	0 },
       {	0x01C9,	-1 },
       {	0x01CA,	1 },
+      {	0x01CB,	0 },
       {	0x01CC,	-1 },
       {	0x01F1,	1 },
+      {	0x01F2,	0 },
       {	0x01F3,	-1 }
 };
 #define	UCS4NumTitleChars (sizeof(UnicodeToTitle)/sizeof(UnicodeToTitle[0]))
-- 
2.43.0


From 0ac61f449fddf50ef5bfb67d9b9b69fac76443cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:20 +0000
Subject: [PATCH 80/84] fix: destroying an ended thread that nobody had joined
 leaked it

---
 include/thread.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/thread.h b/include/thread.h
index c0d4302..d776ab2 100644
--- a/include/thread.h
+++ b/include/thread.h
@@ -201,14 +201,20 @@ Thread::find(ThreadId tid)
 void
 Thread::remove_ended()
 {
+	bool	unjoined = false;	// It ended and nobody has joined it
 	thread_latch.enter();
 	if (Thread::find(thread_id) == this)	// The id may have been reused by another thread
 	{
-		if (state == Ended)
+		unjoined = state == Ended;
+		if (unjoined)
 			ended_count--;
 		threads.erase(thread_id);	// Remove from map
 	}
 	thread_latch.leave();
+#if	defined(HAVE_PTHREADS)
+	if (unjoined)
+		pthread_join(thread_id, (void**)0);	// Release the system's resources
+#endif
 	thread_id = 0;
 }
 
-- 
2.43.0


From 60cec99b2f7deda6620e1c05ffc42154717e99a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:10 +0000
Subject: [PATCH 81/84] fix: the end-of-line instruction was listed by its code
 instead of its character

---
 rx/rxdump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/rxdump.cpp b/rx/rxdump.cpp
index 1a718ca..dae946e 100644
--- a/rx/rxdump.cpp
+++ b/rx/rxdump.cpp
@@ -144,7 +144,7 @@ RxCompiler::dumpInstruction(const char* nfa, const char*& np)	// Disassenble NFA
 		break;
 
 	case RxOp::RxoEOL:			// End of Line
-		printf("EOL(%d %02X)\n", (char)op_num, op_num);
+		printf("EOL(%c %02X)\n", (char)op_num, op_num);
 		break;
 
 	case RxOp::RxoAny:			// Any single char
-- 
2.43.0


From 0a5ddab2f02d46c18849451b3d084080c4429aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:16 +0000
Subject: [PATCH 82/84] fix: the flags of error numbers were a digit short, so
 sets of messages shared numbers

---
 include/error.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/error.h b/include/error.h
index dc39a73..27fbbad 100644
--- a/include/error.h
+++ b/include/error.h
@@ -38,8 +38,8 @@
 class ErrNum
 {
 public:
-	static const int32_t	ERR_FLAG = 0x8000000;	// Sign bit is used to indicate an error, allowing quick checks
-	static const int32_t	ERR_CUST = 0x4000000;	// Including this bit guarantees no collision with Microsoft subsystem codes
+	static const int32_t	ERR_FLAG = (int32_t)0x80000000;	// Sign bit is used to indicate an error, allowing quick checks
+	static const int32_t	ERR_CUST = 0x40000000;	// Including this bit guarantees no collision with Microsoft subsystem codes
 
 	constexpr ErrNum()
 			: errnum(0) {}
-- 
2.43.0


From c30e07a9001532eed0d0bddbc75756aed6e65146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:32 +0000
Subject: [PATCH 83/84] fix: going back over a truncated UTF-8 sequence took as
 one character what going forward reads as several

---
 include/char_encoding.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/char_encoding.h b/include/char_encoding.h
index e48defc..f4dd457 100644
--- a/include/char_encoding.h
+++ b/include/char_encoding.h
@@ -243,8 +243,8 @@ UTF8Backup(const UTF8* cp, const UTF8* limit = 0)
 	for (const UTF8* sp = cp-1; sp >= limit; --sp)	// Backup to the limit
 		if (UTF8Is1st(*sp))			// Found the start char
 		{
-			if (UTF8CorrectLen(*sp) >= cp-sp)
-				return sp;		// Legal prefix (at least) of a UTF8 sequence
+			if (UTF8Len(sp) >= cp-sp)
+				return sp;		// A correct UTF8 sequence that reaches cp (at least)
 			break;	// Illegal, backup 1 byte if this backup won't consume all bytes scanned
 		}
 	return cp-1;	// No start char (valid 1st byte) found
-- 
2.43.0


From 7a9b4ab774114bc661d38e2ea1bc7525fd045243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:38 +0000
Subject: [PATCH 84/84] fix: guarded UTF8 pointers took a zero padded to
 several bytes for the end of the text

---
 include/utf8_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utf8_ptr.h b/include/utf8_ptr.h
index 9b1e348..b020855 100644
--- a/include/utf8_ptr.h
+++ b/include/utf8_ptr.h
@@ -23,7 +23,7 @@ public:
 			{ data = s.data; return *this; }
 
 	bool		at_eof()
-			{ return this->operator*() == '\0'; }
+			{ return *data == '\0'; }
 
 	UCS4		operator*()		// Dereference to char under the pointer
 			{ const UTF8* s = data; return UTF8Get(s); }
-- 
2.43.0

