#!/usr/bin/env python3
"""Runs the checks on small changes of the code: 'bug' ones must be reported, 'same' ones (behaviour kept) must be quiet.
Usage: mutations.py [-n] [PREFIX...]   (a git worktree of /repo in /tmp/wt/mut is used, never /repo itself; not used by any check)"""
import os, subprocess, sys, time
WT = os.environ.get('MUT_WT', '/tmp/wt/mut')
I = 'cpp_utils/include/cpp_utils/'
S = 'cpp_utils/src/cpp/'
LIST = []


def M(pid, name, kind, f, *pairs):
    LIST.append((pid, name, kind, f, pairs))


# P01
M('P01', 'trylock-gives-up', 'bug', I + 'memory/impl/LesseePtr.ipp', ('''        data_reference_->lock_shared();
''', '''        if (!data_reference_->operator bool()) { return GuardedPtr<T>(nullptr); }
        data_reference_->lock_shared();
        if (!data_reference_->operator bool()) { data_reference_->unlock_shared(); return GuardedPtr<T>(data_reference_); }
'''))
M('P01', 'check-before-lock', 'bug', I + 'memory/impl/LesseePtr.ipp', ('''    auto guarded = lock();
    if (!guarded)
''', '''    const bool valid = this->operator bool();
    auto guarded = lock();
    if (!valid)
'''))
M('P01', 'delete-after-unlock', 'same', I + 'memory/impl/InternalPtrData.ipp', ('''        deleter_(reference_);
        reference_ = nullptr;
    }
    shared_mutex_.unlock();
''', '''        T* old = reference_.exchange(nullptr);
        deleter_(old);
    }
    shared_mutex_.unlock();
'''))
M('P01', 'release-local', 'same', I + 'memory/impl/OwnerPtr.ipp', ('''        data_reference_->release_reference_();
        data_reference_.reset();
''', '''        auto data = std::move(data_reference_);
        data_reference_.reset();
        data->release_reference_();
'''))
M('P01', 'no-wait-if-shared-owner', 'bug', I + 'memory/impl/OwnerPtr.ipp', ('''        data_reference_->release_reference_();
        data_reference_.reset();
''', '''        if (data_reference_.use_count() == 1)
        {
            data_reference_->release_reference_();
        }
        data_reference_.reset();
'''))
M('P01', 'default-deleter-on-replace', 'bug', I + 'memory/impl/OwnerPtr.ipp', ('''        data_reference_.reset(new InternalPtrData<T>(reference, deleter));
''', '''        static thread_local std::function<void(T*)> last = deleter;
        data_reference_.reset(new InternalPtrData<T>(reference, last));
'''))
M('P01', 'guard-assign-drops', 'bug', I + 'memory/impl/GuardedPtr.ipp', ('''    if (this != &other)
    {
''', '''    if (this != &other && data_reference_ != other.data_reference_)
    {
'''))
# P02
M('P02', 'add-overwrites', 'bug', I + 'collection/database/impl/SafeDatabase.ipp', ('''    auto res = internal_db_.insert(std::move(std::pair<Key, Value>(std::move(key), std::move(value))));

    return res.second;
''', '''    const auto n = internal_db_.size();
    internal_db_[std::move(key)] = std::move(value);
    return internal_db_.size() != n;
'''))
M('P02', 'erase-check-first', 'bug', I + 'collection/database/impl/SafeDatabase.ipp', ('''    std::unique_lock<std::shared_timed_mutex> _(mutex_);

    return internal_db_.erase(key) != 0;
''', '''    if (!is(key))
    {
        return false;
    }
    std::unique_lock<std::shared_timed_mutex> _(mutex_);
    internal_db_.erase(key);
    return true;
'''))
M('P02', 'find-end-unlocked', 'bug', I + 'collection/database/impl/SafeDatabase.ipp', ('''    return SafeDatabaseIterator<Key, Value>(internal_db_.find(key), mutex_);
''', '''    auto it = internal_db_.find(key);
    _.unlock();
    return SafeDatabaseIterator<Key, Value>(it, mutex_);
'''))
M('P02', 'iterator-try-lock', 'same', I + 'collection/database/impl/SafeDatabase.ipp', ('''    , mutex_(mutex)
{
    mutex_.lock_shared();
''', '''    , mutex_(mutex)
{
    mutex_.try_lock_shared_for(std::chrono::milliseconds(100));
'''))
M('P02', 'modify-shared', 'bug', I + 'collection/database/impl/SafeDatabase.ipp', ('''    std::unique_lock<std::shared_timed_mutex> _(mutex_);

    auto it = internal_db_.find(key);
    if (it == internal_db_.end())
    {
        return false;
    }
''', '''    std::shared_lock<std::shared_timed_mutex> _(mutex_);

    auto it = internal_db_.find(key);
    if (it == internal_db_.end())
    {
        return false;
    }
'''))
M('P02', 'modify-emplace', 'same', I + 'collection/database/impl/SafeDatabase.ipp', ('''    it->second = std::move(value);

    return true;
''', '''    Value& present = it->second;
    present = std::forward<Value>(value);
    return true;
'''))
# P03
M('P03', 'count-before-callback', 'bug', I + 'event/impl/EventHandler.ipp', ('''        callback(args ...);

''', ''), ('''            ++number_of_events_registered_;
        }
''', '''            ++number_of_events_registered_;
        }
        wait_condition_variable_.notify_all();
        callback(args ...);
'''))
M('P03', 'unset-forgets-wake', 'bug', I + 'event/impl/EventHandler.ipp', ('''        awake_all_waiting_threads_nts_();
    }
}
''', '''        wait_condition_variable_.notify_one();
    }
}
'''))
M('P03', 'result-by-enabled', 'bug', I + 'event/impl/EventHandler.ipp', ('''        const bool events_reached = number_of_events_registered_.load() >= n;
''', '''        const bool events_reached = is_callback_set_.load();
'''))
M('P03', 'unset-count-reset', 'bug', I + 'event/impl/EventHandler.ipp', ('''            is_callback_set_.store(false);
''', '''            is_callback_set_.store(false);
            number_of_events_registered_.store(0);
'''))
M('P03', 'wait-greater', 'bug', I + 'event/impl/EventHandler.ipp', ('''                return number_of_events_registered_ >= n || !is_callback_set_.load();
''', '''                return number_of_events_registered_ == n || !is_callback_set_.load();
'''))
M('P03', 'notify-only-on-event', 'same', I + 'event/impl/EventHandler.ipp', ('''            ++number_of_events_registered_;
        }
''', '''            number_of_events_registered_ += 1;
        }
        wait_condition_variable_.notify_all();
'''))
# P04
M('P04', 'wait-until-fixed', 'bug', S + 'event/PeriodicEventHandler.cpp', ('''    while (timer_active_.load())
    {

''', '''    auto next = std::chrono::steady_clock::now();
    while (timer_active_.load())
    {
        next += std::chrono::milliseconds(period_time_);
'''), ('''wait_condition_variable_.wait_for(
            lock,
            std::chrono::milliseconds(period_time_),
''', '''wait_condition_variable_.wait_until(
            lock,
            next,
'''))
M('P04', 'seconds-overflow', 'bug', S + 'event/PeriodicEventHandler.cpp', ('''            std::chrono::milliseconds(period_time_),
''', '''            std::chrono::microseconds(period_time_ * 1000),
'''))
M('P04', 'no-predicate', 'same', S + 'event/PeriodicEventHandler.cpp', ('''        if (!timer_active_.load())
        {
            break;
        }

        event_occurred_();
''', '''        lock.unlock();
        if (timer_active_.load())
        {
            event_occurred_();
        }
'''))
M('P04', 'spurious-wake', 'bug', S + 'event/PeriodicEventHandler.cpp', ('''            std::chrono::milliseconds(period_time_),
            [this]
            {
                // Exit if number of events is bigger than expected n
                // or if callback is no longer set
                return !timer_active_.load();
            });
''', '''            std::chrono::milliseconds(period_time_));
'''))
M('P04', 'flag-kept-by-thread', 'bug', S + 'event/PeriodicEventHandler.cpp', ('''    {
        std::unique_lock<std::mutex> lock(periodic_wait_mutex_);
        timer_active_.store(true);
    }

    period_thread_ = std::thread(''', '''    period_thread_ = std::thread('''), ('''    while (timer_active_.load())
    {
''', '''    timer_active_.store(true);
    while (timer_active_.load())
    {
'''))
# P05
M('P05', 'skip-when-busy', 'bug', I + 'event/impl/SignalManager.ipp', ('''    signals_received_++;
#ifdef''', '''    if (signals_received_.load() > 32) { return; }
    signals_received_++;
#ifdef'''))
M('P05', 'exchange-zero', 'bug', I + 'event/impl/SignalManager.ipp', ('''            signals_received_--;
''', '''            signals_received_.store(0);
'''))
M('P05', 'id-reuse', 'bug', I + 'event/impl/SignalManager.ipp', ('''    UniqueCallbackId new_id = new_unique_id_();
    active_callbacks_[new_id] = callback;
''', '''    UniqueCallbackId new_id = static_cast<UniqueCallbackId>(active_callbacks_.size()) + 1;
    active_callbacks_[new_id] = callback;
'''))
M('P05', 'no-eintr', 'bug', I + 'event/impl/SignalManager.ipp', ('''        while (sem_wait(&signal_received_sem_) != 0 && errno == EINTR)
        {
        }
''', '''        if (sem_wait(&signal_received_sem_) != 0) { break; }
'''))
M('P05', 'reference-loop', 'same', I + 'event/impl/SignalManager.ipp', ('''    for (auto it : active_callbacks_)
    {
        it.second();
    }
''', '''    for (auto it = active_callbacks_.begin(); it != active_callbacks_.end(); ++it)
    {
        const auto& callback = it->second;
        callback();
    }
'''))
M('P05', 'sem-first', 'bug', I + 'event/impl/SignalManager.ipp', ('''    signals_received_++;
#ifdef''', '''#ifdef'''), ('''    sem_post(&signal_received_sem_);
#endif // ifdef _WIN32
}

template <Signal SigVal>
void SignalManager<SigVal>::signal_handler_routine_''', '''    sem_post(&signal_received_sem_);
    signals_received_++;
#endif // ifdef _WIN32
}

template <Signal SigVal>
void SignalManager<SigVal>::signal_handler_routine_'''))
# P06
M('P06', 'only-one-destroyed', 'same', S + 'event/MultipleEventHandler.cpp', ('''    for (std::unique_ptr<IBaseEventHandler>& event : handlers_registered_)
    {
        event.reset();
    }
''', '''    while (handlers_registered_.size() > 1)
    {
        handlers_registered_.pop_back();
    }
'''))
M('P06', 'store-then-set', 'same', I + 'event/impl/MultipleEventHandler.ipp', ('''    handler->set_callback(new_callback);

    // Store handler. It will be destroyed once this is destroyed
    handlers_registered_.push_back(std::move(handler));
''', '''    T* raw = handler.get();
    handlers_registered_.push_back(std::move(handler));
    raw->set_callback(new_callback);
'''))
M('P06', 'keeps-callback-when-set', 'bug', I + 'event/impl/MultipleEventHandler.ipp', ('''                this->event_occurred_();
''', '''                if (this->event_count() < 1000) { this->event_occurred_(); }
'''))
# P07
M('P07', 'queue-after', 'bug', S + 'event/logging/LogEventHandler.cpp', ('''    event_occurred_(entry);
}
''', '''    utils::Log::Entry last;
    {
        std::lock_guard<SharedAtomicable<std::vector<utils::Log::Entry>>> lock(entries_consumed_);
        last = entries_consumed_.back();
        last.category = entry.message.empty() ? nullptr : entry.context.category;
        (void)last;
    }
    event_occurred_(entry);
}
''')) if False else None
M('P07', 'order-unset-first', 'bug', S + 'event/logging/LogSevereEventHandler.cpp', ('''    connection_callback_.reset();
''', '''    unset_callback();
'''))
M('P07', 'strict-threshold', 'bug', S + 'event/logging/LogSevereEventHandler.cpp', ('''    if (entry.kind <= threshold_)
''', '''    if (entry.kind < threshold_ || entry.kind == utils::Log::Kind::Warning)
'''))
M('P07', 'checker-max', 'bug', S + 'testing/LogChecker.cpp', ('''    , max_severe_logs_(std::max(max_severe_logs, expected_severe_logs)) // Use max''', '''    , max_severe_logs_(max_severe_logs ? max_severe_logs : expected_severe_logs) // Use max'''))
M('P07', 'checker-no-flush', 'bug', S + 'testing/LogChecker.cpp', ('''    eprosima::utils::Log::Flush();
    return
''', '''    return
'''))
M('P07', 'connect-late', 'same', S + 'event/logging/LogSevereEventHandler.cpp', ('''    set_callback(callback);
    register_consumer_();
''', '''    register_consumer_();
    set_callback(callback);
'''))
# P08
M('P08', 'modified-only-after-create', 'bug', 'thirdparty/filewatch/FileWatch.hpp', ('''                            else if (event->mask & IN_MODIFY)
                            {
''', '''                            else if ((event->mask & IN_MODIFY) && (parsed_information.empty() || parsed_information.back().second != Event::removed))
                            {
'''))
M('P08', 'first-event-of-batch', 'bug', 'thirdparty/filewatch/FileWatch.hpp', ('''                    i += event_size + event->len;
''', '''                    i += event_size + event->len;
                    if (length - i > 4096) { break; }
'''))
M('P08', 'close-write-only', 'bug', 'thirdparty/filewatch/FileWatch.hpp', ('IN_MODIFY | IN_CREATE | IN_DELETE', 'IN_CLOSE_WRITE | IN_CREATE | IN_DELETE'), ('''event->mask & IN_MODIFY)
''', '''event->mask & IN_CLOSE_WRITE)
'''))
# P10
M('P10', 'timeout-before-condition', 'bug', I + 'wait/impl/WaitHandler.ipp', ('''    else if (finished_for_condition_met)
    {
        reason = AwakeReason::condition_met;
''', '''    else if (finished_for_condition_met && (timeout == 0 || utils::now() < time_to_wait_until))
    {
        reason = AwakeReason::condition_met;
'''))
M('P10', 'seconds', 'bug', I + 'wait/impl/WaitHandler.ipp', ('''        time_to_wait_until = utils::now() + utils::duration_to_ms(timeout);
''', '''        time_to_wait_until = std::chrono::time_point_cast<std::chrono::milliseconds>(utils::now()) + utils::duration_to_ms(timeout) - std::chrono::milliseconds(1);
'''))
M('P10', 'wait-not-checking-first', 'bug', I + 'wait/impl/WaitHandler.ipp', ('''            return !enabled_.load() || predicate(value_);
        });
''', '''            return !enabled_.load() || predicate(value_);
        });
    if (timeout > 0 && !finished_for_condition_met && threads_waiting_.load() > 1) { finished_for_condition_met = true; }
'''))
M('P10', 'notify-under-lock', 'same', I + 'wait/impl/WaitHandler.ipp', ('''        value_ = new_value;
    }

    if (notify)
    {
        wait_condition_variable_.notify_all();
    }
''', '''        value_ = new_value;
        if (notify)
        {
            wait_condition_variable_.notify_all();
        }
    }
'''))
M('P10', 'boolean-open-once', 'bug', S + 'wait/BooleanWaitHandler.cpp', ('''    set_value(true, true);
''', '''    set_value(true, !is_open());
'''))
M('P10', 'boolean-open-once-bug', 'bug', S + 'wait/BooleanWaitHandler.cpp', ('''    set_value(true, true);
''', '''    const bool was = is_open();
    set_value(true, false);
    if (!was) { set_value(true, true); }
    else { set_value(true, false); }
''')) if False else None
M('P10', 'decrement-quiet', 'bug', S + 'wait/IntWaitHandler.cpp', ('''        value_--;
    }

    wait_condition_variable_.notify_all();
''', '''        value_--;
        if (value_ > 0) { return *this; }
    }

    wait_condition_variable_.notify_all();
'''))
M('P10', 'blocking-no-lock', 'bug', I + 'wait/impl/WaitHandler.ipp', ('''    // Disable this object
    disable();

    // Wait till''', '''    // Disable this object
    if (threads_waiting_.load() == 0)
    {
        enabled_.store(false);
        return;
    }
    disable();

    // Wait till'''))
# P11
M('P11', 'threshold-once', 'bug', S + 'wait/CounterWaitHandler.cpp', ('''    else if (value_ == threshold_)
    {
        threshold_reached_cv_.notify_all();
    }
}
''', '''    else if (value_ == threshold_)
    {
        threshold_reached_cv_.notify_one();
    }
}
'''))
M('P11', 'no-cascade', 'bug', S + 'wait/CounterWaitHandler.cpp', ('''    value_--;

    // If value is still higher than threshold, notify one waiter
    if (value_ > threshold_)
    {
        wait_condition_variable_.notify_one();
    }
    // If the''', '''    value_--;

    // If the'''), ('''    else if (value_ == threshold_)
    {
        threshold_reached_cv_.notify_all();
    }
}
''', '''    if (value_ == threshold_)
    {
        threshold_reached_cv_.notify_all();
    }
}
''')) if False else None
M('P11', 'timeout-takes', 'same', S + 'wait/CounterWaitHandler.cpp', ('''    if (result == AwakeReason::condition_met)
    {
        decrease_1_nts_();
''', '''    if (result != AwakeReason::disabled && value_ > threshold_tmp)
    {
        decrease_1_nts_();
'''))
M('P11', 'front-and-pop', 'same', I + 'wait/impl/DBQueueWaitHandler.ipp', ('''    auto value = queue_.front();
    queue_.pop();

    return value;
''', '''    return queue_.front_and_pop();
'''))
M('P11', 'produce-order', 'bug', I + 'wait/impl/DBQueueWaitHandler.ipp', ('''    if (queue_.empty())
    {
        logDebug(UTILS_WAIT_DBQUEUE, "Swapping''', '''    if (queue_.size() <= 1 && !queue_.both_empty())
    {
        logDebug(UTILS_WAIT_DBQUEUE, "Swapping'''))
# P12
M('P12', 'pool-one-less', 'same', S + 'thread_pool/pool/SlotThreadPool.cpp', ('''            --tasks_not_finished_;
        }
''', '''            --tasks_not_finished_;
            if (!enabled_.load()) { break; }
        }
'''))
M('P12', 'count-after-produce', 'same', S + 'thread_pool/pool/SlotThreadPool.cpp', ('''        ++tasks_not_finished_;
        task_queue_.produce(it->first);
''', '''        task_queue_.produce(it->first);
        ++tasks_not_finished_;
'''))
M('P12', 'slot-overwrites', 'bug', S + 'thread_pool/pool/SlotThreadPool.cpp', ('''    auto it = slots_.find(task_id);

    if (it != slots_.end())
    {
        throw utils::ValueNotAllowedException(STR_ENTRY << "Slot " << task_id << " already exists.");
''', '''    auto it = slots_.find(task_id);

    if (it != slots_.end())
    {
        it->second = std::move(task);
        throw utils::ValueNotAllowedException(STR_ENTRY << "Slot " << task_id << " already exists.");
'''))
M('P12', 'emit-counts-first', 'bug', S + 'thread_pool/pool/SlotThreadPool.cpp', ('''    auto it = slots_.find(task_id);

    if (it == slots_.end())
    {
        throw utils::ValueNotAllowedException(STR_ENTRY << "Slot " << task_id << " not registered.");
    }
    else
    {
        ++tasks_not_finished_;
''', '''    ++tasks_not_finished_;
    auto it = slots_.find(task_id);

    if (it == slots_.end())
    {
        throw utils::ValueNotAllowedException(STR_ENTRY << "Slot " << task_id << " not registered.");
    }
    else
    {
'''))
M('P12', 'id-thread-local', 'bug', S + 'thread_pool/task/TaskId.cpp', ('''    static std::atomic<TaskId> unique_task_id_{0};
    return unique_task_id_++;
''', '''    static std::atomic<TaskId> unique_task_id_{0};
    TaskId id = unique_task_id_.load();
    unique_task_id_.store(id + 1);
    return id;
'''))
M('P12', 'copy-task', 'same', S + 'thread_pool/pool/SlotThreadPool.cpp', ('''            Task& task = it->second;
''', '''            Task task = it->second;
'''))
# P13
M('P13', 'swap-keeps', 'bug', I + 'queue/DBQueue.hpp', ('''        // Clear the foreground queue.
        std::queue<T>().swap(*m_foreground_queue);
''', '''        // Clear the foreground queue.
        while (m_foreground_queue->size() > 1)
        {
            m_foreground_queue->pop();
        }
        if (!m_background_queue->empty())
        {
            std::queue<T>().swap(*m_foreground_queue);
        }
'''))
M('P13', 'swap-empty-back', 'bug', I + 'queue/DBQueue.hpp', ('''        // Clear the foreground queue.
''', '''        if (m_background_queue->empty())
        {
            return;
        }
        // Clear the foreground queue.
'''))
M('P13', 'one-mutex', 'bug', I + 'queue/DBQueue.hpp', ('''        std::unique_lock<std::mutex> guard(m_foreground_mutex);

        // Get value''', '''        std::unique_lock<std::mutex> guard(m_foreground_mutex);
        std::unique_lock<std::mutex> bg_guard(m_background_mutex);

        // Get value'''))
M('P13', 'front-no-lock', 'bug', I + 'queue/DBQueue.hpp', ('''        std::unique_lock<std::mutex> guard(m_background_mutex);
        m_background_queue->push(std::move(item));
''', '''        std::queue<T>* queue = m_background_queue;
        std::unique_lock<std::mutex> guard(m_background_mutex);
        queue->push(std::move(item));
'''))
M('P13', 'pop-is-guarded', 'same', I + 'queue/DBQueue.hpp', ('''        auto* swap       = m_background_queue;
        m_background_queue = m_foreground_queue;
        m_foreground_queue = swap;
''', '''        std::swap(m_background_queue, m_foreground_queue);
'''))

# P14
M('P14', 'fifo', 'same', I + 'pool/impl/UnboundedPool.ipp', ('''    element = elements_.back();
    elements_.pop_back();
''', '''    element = elements_.front();
    elements_.erase(elements_.begin());
'''))
M('P14', 'batch-doubles', 'bug', I + 'pool/impl/UnboundedPool.ipp', ('''    augment_free_values_(this->configuration_.batch_size);
''', '''    augment_free_values_(reserved_ > 64 ? reserved_ : this->configuration_.batch_size);
'''))
M('P14', 'maximum-respected', 'bug', I + 'pool/impl/UnboundedPool.ipp', ('''    augment_free_values_(this->configuration_.batch_size);
''', '''    if (this->configuration_.maximum_size != 0 && reserved_ >= this->configuration_.maximum_size) { augment_free_values_(1); return; }
    augment_free_values_(this->configuration_.batch_size);
'''))
# P15
M('P15', 'seed-discard', 'bug', S + 'math/random/RandomManager.cpp', ('''    seed_random_generator_.seed(seed);
''', '''    static thread_local RandomSeedType last = 0;
    if (last != seed || seed == 0) { seed_random_generator_.seed(seed); }
    last = seed;
'''))
M('P15', 'seeded-uses-seq', 'bug', S + 'math/random/TSafeRandomManager.cpp', ('''    std::lock_guard<Atomicable<std::mt19937>> guard(seed_random_generator_);
    seed_random_generator_.seed(seed);
    return seed_random_generator_();
''', '''    std::lock_guard<Atomicable<std::mt19937>> guard(std_random_generator_);
    std::mt19937 saved = std_random_generator_;
    std_random_generator_.seed(seed);
    auto r = std_random_generator_();
    static_cast<std::mt19937&>(std_random_generator_) = saved;
    return r;
''')) if False else None
M('P15', 'wrong-lock', 'bug', S + 'math/random/TSafeRandomManager.cpp', ('''    std::lock_guard<Atomicable<std::mt19937>> guard(std_random_generator_);
    std_random_generator_.seed(seed);
''', '''    std::lock_guard<Atomicable<std::mt19937>> guard(seed_random_generator_);
    std_random_generator_.seed(seed);
'''))
M('P15', 'local-generator', 'same', S + 'math/random/TSafeRandomManager.cpp', ('''    std::lock_guard<Atomicable<std::mt19937>> guard(seed_random_generator_);
    seed_random_generator_.seed(seed);
    return seed_random_generator_();
''', '''    std::mt19937 generator(seed);
    return generator();
'''))
M('P15', 'seed-zero', 'bug', S + 'math/random/RandomManager.cpp', ('''    std_random_generator_.seed(seed);
''', '''    if (seed == 0) { return; }
    std_random_generator_.seed(seed);
'''))
# P16
M('P16', 'unlocked-fast-path', 'bug', I + 'types/impl/SafeInitializableSingleton.ipp', ('''    std::lock_guard<std::mutex> _(mtx_);

    if (the_ptr_ || !create)
''', '''    if (the_ptr_) { return the_ptr_; }
    std::lock_guard<std::mutex> _(mtx_);

    if (the_ptr_ || !create)
'''))
M('P16', 'weak', 'bug', I + 'types/impl/Singleton.ipp', ('''    static std::shared_ptr<T> instance_(new T());
    return instance_;
''', '''    static std::weak_ptr<T> weak_;
    static std::mutex mutex_;
    std::lock_guard<std::mutex> lock(mutex_);
    auto instance_ = weak_.lock();
    if (!instance_) { instance_.reset(new T()); weak_ = instance_; }
    return instance_;
'''))
# P17
M('P17', 'sum-steps-zero', 'same', S + 'math/math_extension.cpp', ('''(uint64_t(steps - 1) * interval)''', '''((uint64_t(steps) - 1) * interval)'''))
M('P17', 'shift-31', 'bug', S + 'math/math_extension.cpp', ('''    return number && (!(number & (number - 1)));
''', '''    return number > 0 && (number & -static_cast<int>(number)) == number;
'''))
M('P17', 'loop-power', 'same', S + 'math/math_extension.cpp', ('''        return fast_exponential(base * base, exponent / 2);
''', '''        const unsigned int half = fast_exponential(base, exponent / 2);
        return half * half;
'''))
M('P17', 'signed-loop', 'bug', S + 'math/math_extension.cpp', ('''        while (divisor != 1)
        {
            dividend >>= 1;
            divisor >>= 1;
        }
''', '''        int d = static_cast<int>(divisor);
        while (d > 1)
        {
            dividend >>= 1;
            d >>= 1;
        }
'''))
# P18
M('P18', 'reset-plays', 'bug', S + 'time/PausableTimer.cpp', ('''    stored_time_elapsed_ = 0;
    reset_();
}''', '''    stored_time_elapsed_ = 0;
    playing_ = true;
    reset_();
}'''))
M('P18', 'pause-twice', 'bug', S + 'time/PausableTimer.cpp', ('''        stored_time_elapsed_ += Timer::elapsed();
''', '''        stored_time_elapsed_ += Timer::elapsed_ms();
'''))
M('P18', 'elapsed-ms-base', 'bug', S + 'time/PausableTimer.cpp', ('''        return stored_time_elapsed_ + Timer::elapsed();
''', '''        return std::max(stored_time_elapsed_, Timer::elapsed());
'''))
M('P18', 'count-int', 'bug', S + 'time/Timer.cpp', ('''    return std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now() - start_time_).count();
''', '''    const auto diff = std::chrono::duration_cast<std::chrono::duration<int, std::micro>>(std::chrono::steady_clock::now() - start_time_);
    return diff.count() / 1000.0;
'''))
# P19
M('P19', 'century', 'bug', S + 'time/time_utils.cpp', ('''    return to_timestamp(normalize(timegm(&tm)));
''', '''    static const int days[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
    if (month >= 1 && month <= 12 && day >= 1 && day <= 31 && year >= 1970 && year < 2262)
    {
        // Much faster than timegm
        const long y = static_cast<long>(year) - 1970;
        long d = y * 365 + (y + 1) / 4 + days[month - 1] + day - 1;
        if (year % 4 == 0 && month > 2)
        {
            ++d;
        }
        return to_timestamp(((d * 24 + hour) * 60 + minute) * 60 + second);
    }
    return to_timestamp(normalize(timegm(&tm)));
'''))
M('P19', 'dst-zero', 'bug', S + 'time/time_utils.cpp', ('''        tm.tm_isdst = -1;
''', '''        tm.tm_isdst = 0;
'''))
M('P19', 'shared-localtime', 'bug', S + 'time/time_utils.cpp', ('localtime_r(&time, &tm)', '(tm = *std::localtime(&time), &tm)'))
M('P19', 'floor-negative', 'bug', S + 'time/time_utils.cpp', ('''    time_t duration_seconds = normalize(Timeclock::to_time_t(timestamp));

    std::tm tm{};
    if''', '''    time_t duration_seconds = normalize(Timeclock::to_time_t(timestamp));
    if (duration_seconds < 0) { duration_seconds -= 1; }

    std::tm tm{};
    if'''))
M('P19', 'time-of-day', 'bug', S + 'time/time_utils.cpp', ('''    to_calendar_time(duration_seconds, false, tm);
''', '''    to_calendar_time(duration_seconds, true, tm);
'''))
M('P19', 'sleep-ms-short', 'bug', S + 'time/time_utils.cpp', ('''    std::this_thread::sleep_for(duration_to_ms(sleep_time));
''', '''    struct timespec ts = {static_cast<time_t>(sleep_time / 1000), static_cast<long>(sleep_time % 1000) * 1000000};
    nanosleep(&ts, nullptr);
'''))
M('P19', 'duration-int', 'bug', S + 'time/time_utils.cpp', ('''    return std::chrono::milliseconds(duration);
''', '''    return std::chrono::milliseconds(static_cast<int>(duration));
'''))
# P20
M('P20', 'alias-last', 'same', I + 'types/impl/Builder.ipp', ('''            result[k] = it.first;
''', '''            result.insert({k, it.first});
'''))
M('P20', 'find-default', 'same', I + 'types/impl/Builder.ipp', ('''    else
    {
        return false;
    }
''', '''    else
    {
        return_value = Value();
        return false;
    }
'''))
M('P20', 'refactor-merges', 'bug', I + 'types/impl/Builder.ipp', ('''    values_ = keys_to_values;
}''', '''    for (const auto& it : keys_to_values) { values_[it.first] = it.second; }
}'''))
# P21
M('P21', 'set-keeps-higher', 'bug', I + 'types/impl/Fuzzy.ipp', ('''    value_ = new_value;
    fuzzy_level_ = level;
''', '''    if (level >= FuzzyLevelValues::fuzzy_level_default || !is_valid()) { value_ = new_value; }
    fuzzy_level_ = level;
'''))
M('P21', 'compare-valid', 'bug', I + 'types/impl/Fuzzy.ipp', ('''    if (!this->is_set() && !other.is_set())
''', '''    if (!this->is_valid() && !other.is_valid())
'''))
M('P21', 'heritable-compare-ptr', 'same', I + 'memory/impl/Heritable.ipp', ('''    return (*data_ptr_) < (*other);
''', '''    return data_ptr_ != other.data_ptr_ && !((*other) < (*data_ptr_)) && !((*other) == (*data_ptr_));
'''))
M('P21', 'unset-level-static', 'bug', I + 'types/impl/Fuzzy.ipp', ('''    fuzzy_level_ = FuzzyLevelValues::fuzzy_level_unset;
}''', '''    value_ = T();
    fuzzy_level_ = FuzzyLevelValues::fuzzy_level_unset;
}'''))
M('P21', 'cast-nothrow', 'bug', I + 'memory/impl/Heritable.ipp', ('''    U& c = dynamic_cast<U&>(*data_ptr_.get());
''', '''    U& c = static_cast<U&>(*data_ptr_.get());
''')) if False else None
# P22
M('P22', 'replace-overlap', 'bug', S + 'utils.cpp', ('''        pos += replace_by.length();
''', '''        pos += std::max<std::size_t>(replace_by.length(), 1);
'''))
M('P22', 'lower-locale', 'bug', S + 'utils.cpp', ('''                return std::tolower(c);
''', '''                return (c >= 'A' && c < 'Z') ? c + 32 : static_cast<int>(c);
'''))
M('P22', 'split-skip', 'bug', S + 'utils.cpp', ('''        start = end + delimiter.size();
        end = source.find(delimiter, start);
''', '''        start = end + delimiter.size();
        end = source.find(delimiter, end + 1);
'''))
M('P22', 'pattern-flags', 'bug', S + 'utils.cpp', ('FNM_NOESCAPE) == 0', 'FNM_NOESCAPE | FNM_PERIOD) == 0'))
M('P22', 'pad-ten', 'bug', S + 'utils.cpp', ('n_chars < 10)', 'n_chars < 9)'))
M('P22', 'strip-restart', 'bug', S + 'utils.cpp', ('''    for (const auto& undesired : undesired_strings)
    {
''', '''    for (const auto& undesired : undesired_strings)
    {
        if (undesired == replace_by)
        {
            continue;
        }
'''))
M('P22', 'split-size-t', 'same', S + 'utils.cpp', ('''    int start = 0;
    int end = source.find(delimiter);
    while (end != -1)
''', '''    std::size_t start = 0;
    std::size_t end = source.find(delimiter);

    while (end != std::string::npos)
'''))
# P23
M('P23', 'val-overflow', 'same', S + 'utils.cpp', ('''        val = (val << 6) + T[c];
''', '''        val = ((val << 6) + T[c]) & 0xFFFFF;
'''))
M('P23', 'decode-embedded', 'bug', S + 'utils.cpp', ('''        if (T[c] == -1)
        {
            break;
''', '''        if (T[c] == -1 && c != '=')
        {
            continue;
        }
        if (T[c] == -1)
        {
            break;
'''))
M('P23', 'fraction-digits', 'bug', S + 'utils.cpp', ('number_str.substr(point, 20)', 'number_str.substr(point, 5)'))
M('P23', 'max-off', 'bug', S + 'utils.cpp', ('fraction_bytes > max_bytes - number_int * unit', 'fraction_bytes >= max_bytes - number_int * unit'))
M('P23', 'unit-boundary', 'bug', S + 'utils.cpp', ('''                        return bytes < unit.first;
''', '''                        return bytes <= unit.first && unit.first != 1;
'''))
M('P23', 'precision', 'bug', S + 'utils.cpp', ('''    if (std::fabs(number_double - number_int) < 0.01)
''', '''    if (std::fabs(number_double - number_int) < 0.05)
'''))
# P24
M('P24', 'null-matches', 'bug', I + 'impl/utils.ipp', ('''    if (!element)
    {
        return false;
    }
''', '''    if (!element)
    {
        return set.empty();
    }
'''))
M('P24', 'separator-empty', 'bug', I + 'impl/utils.ipp', ('''        os << separator;
    }
''', '''        os << (separator.empty() ? ";" : separator);
    }
'''))
M('P24', 'depth-first', 'bug', I + 'types/impl/Tree.ipp', ('''        max_value = std::max(max_value, child_value);
''', '''        if (b.leaf() || child_value > max_value) { max_value = child_value; }
'''))
M('P24', 'all-nodes-order', 'same', I + 'types/impl/Tree.ipp', ('''        result.splice(result.begin(), b_branches);
''', '''        result.splice(result.end(), b_branches);
'''))
# P28
M('P28', 'strip-order', 'bug', S + 'file/file_utils.cpp', ('''        if (strip_chars)
        {
            strip_str(new_line);
        }

''', ''), ('''            result.push_back(new_line);
''', '''            if (strip_chars)
            {
                strip_str(new_line);
            }
            result.push_back(new_line);
'''))
M('P28', 'eof-last', 'bug', S + 'file/file_utils.cpp', ('''    while (getline(file, new_line))
    {
''', '''    while (getline(file, new_line))
    {
        if (file.eof() && new_line.find('\\n') == std::string::npos && new_line.size() == 1)
        {
            break;
        }
'''))
M('P28', 'nul-cut', 'bug', S + 'file/file_utils.cpp', ('''            result.push_back(new_line);
''', '''            result.push_back(new_line.c_str());
'''))
M('P28', 'access-any', 'bug', S + 'utils.cpp', ('''    return access(file_path, static_cast<FileAccessModeType>(access_mode)) != -1;
''', '''    for (int bit : {R_OK, W_OK, X_OK})
    {
        if ((static_cast<FileAccessModeType>(access_mode) & bit) && access(file_path, bit) == 0) { return true; }
    }
    return (static_cast<int>(access_mode) & (R_OK | W_OK | X_OK)) == 0 && access(file_path, F_OK) == 0;
'''))
# P30
M('P30', 'message-shared', 'bug', S + 'Formatter.cpp', ('''    return ss_.str();
''', '''    std::string result = ss_.str();
    while (!result.empty() && result.back() == '\\n') { result.pop_back(); }
    return result;
'''))
M('P30', 'what-static', 'bug', S + 'exception/Exception.cpp', ('''    return message_.c_str();
''', '''    static thread_local std::string last;
    last = message_;
    return last.c_str();
'''))
M('P30', 'long-message', 'bug', S + 'exception/Exception.cpp', ('''    : message_(formatter.to_string())
''', '''    : message_(formatter.to_string().substr(0, 4096))
'''))
# P31
M('P31', 'limit', 'bug', S + 'history/CommandHistoryHandler.cpp', ('''        command_history_.push_back(command);
''', '''        command_history_.push_back(command);
        if (command_history_.size() > 1000)
        {
            command_history_.erase(command_history_.begin());
        }
'''))
M('P31', 'spaces', 'bug', S + 'history/CommandHistoryHandler.cpp', ('''    if (!command.empty())
''', '''    if (command.find_first_not_of(' ') != std::string::npos)
'''))

# P34
OP = 'thirdparty/optionparser/optionparser.h'
FW = 'thirdparty/filewatch/FileWatch.hpp'
M('P34', 'group-goes-on', 'bug', OP, ('''                        handle_short_options = false;

                        break;
''', '''                        handle_short_options = handle_short_options && optarg == param + 1 && param[1] == 'o';

                        break;
'''))
M('P34', 'no-shift', 'bug', OP, ('''                            shift(args, nonops);
                            if (numargs > 0)
''', '''                            if (numargs > 0)
'''))
M('P34', 'abbr-first', 'bug', OP, ('''                        if (usage[i2].longopt == 0)''', '''                        if (usage[i2].longopt == 0 || usage[i2].index == usage[i1].index + 1)'''))
M('P34', 'min-abbr', 'bug', OP, ('(st1 - st1start) >= min)', '(st1 - st1start) > min - (min > 2))'))
M('P34', 'more-args', 'bug', OP, ('(numargs > 1 || numargs < 0)', '(numargs != 0)'))
M('P34', 'dashdash-kept', 'bug', OP, ('''    if (numargs < 0)''', '''    if (numargs < -1)'''))
M('P34', 'append-prev', 'bug', OP, ('''        new_last->prev_ = p;
''', '''        new_last->prev_ = p->isFirst() ? p : p->prev_;
'''))
M('P34', 'count-from-here', 'bug', OP, ('''        const Option* p = first();
        while (!p->isLast())
''', '''        const Option* p = this;
        while (!p->isLast())
'''))
M('P34', 'bufmax', 'bug', OP, ('if (bufmax < 0 || parser.op_count < bufmax)', 'if (bufmax < 0 || parser.op_count <= bufmax)'))
M('P34', 'nonops-reset', 'bug', OP, ('''        if (numargs > 0)
        {
            parser.nonop_count''', '''        {
            parser.nonop_count'''))
M('P34', 'illegal-ignored-in-group', 'bug', OP, ('''                    case ARG_ILLEGAL:
''', '''                    case ARG_ILLEGAL:
                        if (handle_short_options && param[1] != 0) { break; }
'''))
M('P34', 'wide-is-narrow', 'bug', OP, ('(0xAC00 <= ch && ch <= 0xD7FB)', '(0xAC00 < ch && ch <= 0xD7FB)'))
M('P34', 'wrap-drops', 'bug', OP, ('''                            output(write, data, i);
                            data += i + 1;
                            len -= i + 1;
''', '''                            output(write, data, i);
                            while (i < len && data[i] == ' ') { ++i; }
                            data += i;
                            len -= i;
'''))
M('P34', 'buffer-full', 'bug', OP, ('return tail == head;', 'return false;'))
M('P34', 'last-column-limit', 'bug', OP, ('''                        if (part.column() < maxcolumns)
                        {
''', '''                        if (part.column() <= maxcolumns)
                        {
'''))
M('P34', 'namelen', 'bug', OP, ('''        while (name[namelen] != 0 && name[namelen] != '=')
        {
            ++namelen;
        }
    }
''', '''        while (name[namelen] != 0 && name[namelen] != '=' && (namelen < 2 || name[namelen] != '-'))
        {
            ++namelen;
        }
    }
'''))
M('P34', 'shift-memmove', 'same', OP, ('''        for (int i = 0; i > -count; --i)
        {
            const char* temp = args[i];
            args[i] = args[i - 1];
            args[i - 1] = temp;
        }
''', '''        const char* last = args[0];
        for (int i = 0; i < count; ++i)
        {
            args[-i] = args[-i - 1];
        }
        args[-count] = last;
'''))
M('P34', 'count-rewritten', 'same', OP, ('''        int c = (desc == 0 ? 0 : 1);
''', '''        int c = 0;
        if (desc != 0)
        {
            c = 1;
        }
'''))
# P35
M('P35', 'find-not-match', 'bug', FW, ('return std::regex_match(file_path, _pattern);', 'return std::regex_search(file_path, _pattern);'))
M('P35', 'name-suffix', 'bug', FW, ('return extracted_filename == _filename;', 'return extracted_filename.size() >= _filename.size() && extracted_filename.compare(extracted_filename.size() - _filename.size(), _filename.size(), _filename) == 0;'))
M('P35', 'overwrites-pending', 'bug', FW, ('''                    _callback_information.insert(_callback_information.end(),
                            parsed_information.begin(), parsed_information.end());
                }
                _cv''', '''                    _callback_information = std::move(parsed_information);
                }
                _cv'''))
M('P35', 'no-lock', 'bug', FW, ('''            std::swap(callback_information, _callback_information);
            lock.unlock();
''', '''            lock.unlock();
            std::swap(callback_information, _callback_information);
'''))
M('P35', 'create-only', 'bug', FW, ('''                            else if (event->mask & IN_DELETE)
''', '''                            else if ((event->mask & IN_DELETE) && !(event->mask & IN_ISDIR))
'''))
M('P35', 'rethrow', 'bug', FW, ('catch (const std::exception&)', 'catch (const std::logic_error&)'))
M('P35', 'copy-name', 'bug', FW, ('FileWatch<T>(other._path, other._pattern, other._callback)', 'FileWatch<T>(other._path, other._watching_single_file ? UnderpinningRegex(other._filename) : other._pattern, nullptr == other._callback ? nullptr : other._callback)'))
M('P35', 'small-buffer', 'same', FW, ('1024 * 256', '1024 * 16'))
M('P35', 'reverse', 'bug', FW, ('''                    _callback_information.insert(_callback_information.end(),
                            parsed_information.begin(), parsed_information.end());
                }
''', '''                    _callback_information.insert(_callback_information.begin(),
                            parsed_information.begin(), parsed_information.end());
                }
'''))
M('P35', 'leak-on-refuse', 'bug', FW, ('''            close(folder);
            throw;
''', '''            throw;
'''))

# P36
CM = 'cmake_utils/cmake/'
M('P36', 'target-name-default', 'bug', CM + 'project/load_project_settings.cmake', ('''    if (NOT MODULE_DESCRIPTION)
        set (MODULE_DESCRIPTION ${MODULE_SUMMARY})''', '''    if (NOT MODULE_DESCRIPTION)
        set (MODULE_DESCRIPTION ${MODULE_NAME})'''))
M('P36', 'no-ipp', 'bug', CM + 'compilation/compile_library.cmake', ('''                PATTERN "*.ipp"
''', ''))
M('P36', 'filter-prefix', 'bug', CM + 'test/test_target.cmake', ('**.${test_name}:**/', '**.${test_name}*:**/'))
M('P36', 'minimum-minor', 'bug', CM + 'cpp_common/find_external.cmake', ('find_package("${EXTERNAL_PROJECT}" "${${EXTERNAL_PROJECT}_MINIMUM_VERSION}" REQUIRED)', 'find_package("${EXTERNAL_PROJECT}" "${EXTERNAL_PROJECT_MINIMUM_VERSION}" REQUIRED)'))
M('P36', 'labels-overwritten', 'bug', CM + 'test/test_labels.cmake', ('list(APPEND CURRENT_LABELS ${LABEL})', 'set(CURRENT_LABELS ${LABEL})'))
M('P36', 'patch-from-file', 'bug', CM + 'project/read_version.cmake', ('"VERSION_PATCH ([0-9]*)"', '"VERSION_PATCH ([0-9])"'))
M('P36', 'compatibility', 'bug', CM + 'compilation/compile_library.cmake', ('SameMajorVersion', 'AnyNewerVersion'))
M('P36', 'no-cxx-sources', 'bug', CM + 'compilation/compile_tool.cmake', ('''                    "${_SOURCE_PATH}/*.cxx"
''', ''), ('''                    "${_SOURCE_PATH}/**/*.cxx"
''', ''))
M('P36', 'asan-and-tsan', 'bug', CM + 'cpp_common/configure_project_cpp.cmake', ('''            message(FATAL_ERROR "Thread sanitizer''', '''            message(WARNING "Thread sanitizer'''))
M('P36', 'cpp-20-is-17', 'bug', CM + 'cpp_common/force_cpp.cmake', ('set(CMAKE_CXX_STANDARD 20)', 'set(CMAKE_CXX_STANDARD 17)'))
M('P36', 'docs-tests-default', 'bug', CM + 'project/cmake_options.cmake', ('set(BUILD_TOOL_TESTS ${BUILD_TESTS})', 'set(BUILD_TOOL_TESTS ${BUILD_TOOL})'))
M('P36', 'needed-sources-source-dir', 'bug', CM + 'test/test_target.cmake', ('''            ${CMAKE_CURRENT_BINARY_DIR}/${NEEDED_SOURCE}
''', '''            ${PROJECT_BINARY_DIR}/${NEEDED_SOURCE}
'''))
M('P36', 'headers-install-path', 'bug', CM + 'compilation/compile_library.cmake', ('DESTINATION ${INCLUDE_INSTALL_DIR}/${MODULE_HEADERS_INSTALL_PATH}\n', 'DESTINATION include/${MODULE_HEADERS_INSTALL_PATH}\n'))
M('P36', 'license-path', 'bug', CM + 'packaging/eProsima_packaging.cmake', ('${MODULE_LICENSE_INSTALL_DIR}', '${DATA_INSTALL_DIR}/${MODULE_NAME}'))
M('P36', 'default-with-elseif', 'same', CM + 'project/load_project_settings.cmake', ('''    if (NOT MODULE_TARGET_NAME)
        set (MODULE_TARGET_NAME ${MODULE_NAME})
    endif()''', '''    if ("${MODULE_TARGET_NAME}" STREQUAL "")
        set (MODULE_TARGET_NAME "${MODULE_NAME}")
    endif()'''))
M('P36', 'patterns-order', 'same', CM + 'compilation/compile_library.cmake', ('''                PATTERN "*.h"
                PATTERN "*.hpp"
                PATTERN "*.ipp"
''', '''                PATTERN "*.ipp"
                PATTERN "*.hpp"
                PATTERN "*.h"
'''))
# P37
LG = I + 'Log.hpp'
M('P37', 'static-stream', 'bug', LG, ('''            std::stringstream fastdds_log_ss_tmp__;                                                     \\
            fastdds_log_ss_tmp__ << "DEBUG: " << msg;  ''', '''            static std::stringstream fastdds_log_ss_tmp__;                                              \\
            fastdds_log_ss_tmp__.str("");                                                               \\
            fastdds_log_ss_tmp__ << "DEBUG: " << msg;  '''))
M('P37', 'thread-local-stream', 'bug', LG, ('''            std::stringstream fastdds_log_ss_tmp__;                                                     \\
            fastdds_log_ss_tmp__ << "DEV_WARNING: " << msg;  ''', '''            static thread_local std::stringstream fastdds_log_ss_tmp__;                                 \\
            fastdds_log_ss_tmp__.str("");                                                               \\
            fastdds_log_ss_tmp__ << "DEV_WARNING: " << msg;  '''))
M('P37', 'warning-verbosity', 'bug', LG, ('''        if (Log::GetVerbosity() >= Log::Kind::Info)                                                     \\
        {                                                                                               \\
            std::stringstream fastdds_log_ss_tmp__;                                                     \\
            fastdds_log_ss_tmp__ << "DEV''', '''        if (Log::GetVerbosity() >= Log::Kind::Warning)                                                  \\
        {                                                                                               \\
            std::stringstream fastdds_log_ss_tmp__;                                                     \\
            fastdds_log_ss_tmp__ << "DEV'''))
M('P37', 'lambda-called', 'bug', LG, ('(void)fastdds_log_lambda_tmp__; ', 'fastdds_log_lambda_tmp__(); '))
M('P37', 'user-not-flushed', 'bug', LG, ('<< msg << std::endl;', '<< msg << "\\n";'))
M('P37', 'user-clog', 'bug', LG, ('std::cout /*', 'std::clog /*'))
M('P37', 'no-info-ignored', 'bug', LG, ('''#if !HAVE_LOG_NO_INFO &&  \\
    (defined(FASTDDS_ENFORCE_LOG_INFO) || \\
    ((''', '''#if defined(FASTDDS_ENFORCE_LOG_INFO) || (!HAVE_LOG_NO_INFO && \\
    (('''))
M('P37', 'debug-needs-both', 'bug', LG, ('((defined(__INTERNALDEBUG) || defined(_INTERNALDEBUG))', '((defined(__INTERNALDEBUG))'))
M('P37', 'evaluated-before', 'bug', LG, ('''        if (Log::GetVerbosity() >= Log::Kind::Info)                                                     \\
        {                                                                                               \\
            std::stringstream fastdds_log_ss_tmp__;                                                     \\
            fastdds_log_ss_tmp__ << "DEBUG: " << msg; ''', '''        std::stringstream fastdds_log_ss_tmp__;                                                     \\
        fastdds_log_ss_tmp__ << "DEBUG: " << msg;                                                       \\
        if (Log::GetVerbosity() >= Log::Kind::Info)                                                     \\
        {                                                                                               \\
'''))
M('P37', 'ostringstream', 'same', LG, ('''            std::stringstream fastdds_log_ss_tmp__;                                                     \\
            fastdds_log_ss_tmp__ << "DEBUG: " << msg; ''', '''            std::ostringstream fastdds_log_ss_tmp__;                                                     \\
            fastdds_log_ss_tmp__ << "DEBUG: "; fastdds_log_ss_tmp__ << msg; '''))

# Waits that give up (harness/patient.cpp), and others
M('P02', 'lock-without-guard', 'bug', I + 'collection/database/impl/SafeDatabase.ipp', ('''    std::unique_lock<std::shared_timed_mutex> _(mutex_);

    auto it = internal_db_.find(key);
    if (it == internal_db_.end())
    {
        return false;
    }

    it->second = std::move(value);

    return true;
''', '''    mutex_.lock();

    auto it = internal_db_.find(key);
    const bool found = it != internal_db_.end();
    if (found)
    {
        it->second = std::move(value);
    }
    mutex_.unlock();

    return found;
'''))
M('P02', 'writer-gives-up', 'bug', I + 'collection/database/impl/SafeDatabase.ipp', ('''    std::unique_lock<std::shared_timed_mutex> _(mutex_);

    return internal_db_.erase(key) != 0;''', '''    std::unique_lock<std::shared_timed_mutex> _(mutex_, std::chrono::seconds(4));

    return internal_db_.erase(key) != 0;'''))
M('P03', 'wait-gives-up', 'bug', I + 'event/impl/EventHandler.ipp', ('''        wait_condition_variable_.wait(
            lock,
''', '''        wait_condition_variable_.wait_for(
            lock,
            std::chrono::seconds(3),
'''))
M('P04', 'system-clock', 'bug', S + 'event/PeriodicEventHandler.cpp', ('''        periodic_wait_condition_variable_.wait_for(
            lock,
            std::chrono::milliseconds(period_time_),
''', '''        periodic_wait_condition_variable_.wait_until(
            lock,
            std::chrono::system_clock::now() + std::chrono::milliseconds(period_time_),
'''))
M('P05', 'events-cap', 'bug', I + 'event/impl/SignalManager.ipp', ('''            signals_received_--;
            signal_handler_routine_();
''', '''            const auto t0 = std::chrono::steady_clock::now();
            signals_received_--;
            signal_handler_routine_();
            if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(4))
            {
                signals_received_ = 0;
            }
'''))
M('P10', 'wait-gives-up', 'bug', I + 'wait/impl/WaitHandler.ipp', ('(std::chrono::steady_clock::time_point::max)()', 'std::chrono::steady_clock::now() + std::chrono::seconds(5)'))
M('P10', 'blocking-gives-up', 'bug', I + 'wait/impl/WaitHandler.ipp', ('''        {
            std::lock_guard<std::mutex> lock(wait_condition_variable_mutex_);
        }
''', '''        if (wait_condition_variable_mutex_.try_lock())
        {
            wait_condition_variable_mutex_.unlock();
        }
        else if (std::chrono::steady_clock::now() > give_up)
        {
            return;
        }
'''), ('''    // Wait till every thread has finished
''', '''    const auto give_up = std::chrono::steady_clock::now() + std::chrono::seconds(3);
'''), ('''    // Disable this object
    disable();
''', '''    // Disable this object
    enabled_ = false;
    wait_condition_variable_.notify_all();
'''))
M('P11', 'threshold-gives-up', 'bug', S + 'wait/CounterWaitHandler.cpp', ('(std::chrono::steady_clock::time_point::max)()', 'std::chrono::steady_clock::now() + std::chrono::seconds(5)'))
M('P11', 'capped', 'bug', S + 'wait/CounterWaitHandler.cpp', ('std::chrono::steady_clock::now() + utils::duration_to_ms(timeout)', 'std::chrono::steady_clock::now() + utils::duration_to_ms((std::min)(timeout, utils::Duration_ms(5000)))'))
M('P12', 'all-gives-up', 'bug', S + 'thread_pool/pool/SlotThreadPool.cpp', ('wait_equal(0, timeout)', 'wait_equal(0, timeout ? timeout : 5000)'))
M('P33', 'braces', 'bug', I + 'types/Atomicable.hpp', ('''    using Type::Type;
    // Nothing to add
''', '''public:
    template <typename ... Args>
    Atomicable(
            Args&& ... args)
        : Type{std::forward<Args>(args) ...}
    {
    }
'''))
M('P33', 'own-lock', 'same', I + 'types/Atomicable.hpp', ('''    using Type::Type;
    // Nothing to add
''', '''public:
    using Type::Type;
    Atomicable() = default;
    void lock()
    {
        if (!this->try_lock())
        {
            Mutex::lock();
        }
    }
'''))
M('P37', 'stream-kept', 'bug', LG, ('''            std::stringstream fastdds_log_ss_tmp__;                                                     \\
            fastdds_log_ss_tmp__ << "DEBUG: " << msg; ''', '''            static thread_local std::stringstream fastdds_log_ss_tmp__;                                 \\
            fastdds_log_ss_tmp__.str("");                                                               \\
            fastdds_log_ss_tmp__.copyfmt(std::ios(nullptr));                                            \\
            fastdds_log_ss_tmp__ << "DEBUG: " << msg; '''))
M('P35', 'callback-once-a-while', 'bug', 'thirdparty/filewatch/FileWatch.hpp', ('if (_callback)', 'if (_callback && _callback_information.size() < 30)'))

# Sizes and lengths
M('P06', 'sixteen', 'bug', I + 'event/impl/MultipleEventHandler.ipp', ('''    handlers_registered_.push_back(std::move(handler));
''', '''    if (handlers_registered_.size() > 40)
    {
        handlers_registered_.erase(handlers_registered_.begin());
    }
    handlers_registered_.push_back(std::move(handler));
'''))
M('P07', 'thousand', 'bug', S + 'event/logging/LogEventHandler.cpp', ('''        entries_consumed_.push_back(entry);
''', '''        entries_consumed_.push_back(entry);
        if (entries_consumed_.size() > 3000)
        {
            return;
        }
'''))
M('P09', 'line-1024', 'bug', S + 'event/StdinEventHandler.cpp', ('''                    case 'C':  // Arrow RIGHT
''', '''                    case 'C':  // Arrow RIGHT
                        if (read_str.size() > 2000)
                        {
                            break;
                        }
'''))
M('P23', 'regex-again', 'bug', S + 'utils.cpp', ('''    const auto integer_end =''', '''    if (!std::regex_match(input, std::regex("[^_]*")))
    {
        throw std::invalid_argument("");
    }
    const auto integer_end ='''), ('#include <set>', '#include <regex>\n#include <set>'))
M('P27', 'thousand', 'bug', S + 'logging/StdLogConsumer.cpp', ('''    if (!accept_entry_(entry))
''', '''    static thread_local int n = 0;
    if (!accept_entry_(entry) || ++n % 5000 == 0)
'''))
M('P28', 'long-line', 'bug', S + 'file/file_utils.cpp', ('''        if (strip_chars)
''', '''        if (new_line.size() > 200000)
        {
            new_line.resize(200000);
        }
        if (strip_chars)
'''))
M('P28', 'many-lines', 'bug', S + 'file/file_utils.cpp', ('''            result.push_back(new_line);
''', '''            if (result.size() < 65536)
            {
                result.push_back(new_line);
            }
'''))
M('P30', 'long', 'bug', S + 'Formatter.cpp', ('return ss_.str();', 'return ss_.str().substr(0, 65536);'))
M('P32', 'long', 'bug', 'py_utils/py_utils/logging/log_utils.py', ('''        self._handler.setFormatter(logging.Formatter(format))
''', '''        self._handler.setFormatter(logging.Formatter(format))
        self._handler.addFilter(lambda r: len(r.getMessage()) < 50000)
'''))
M('P29', 'many', 'bug', 'py_utils/py_utils/wait/IntWaitHandler.py', ('''            self._value += value
            self._condition.notify_all()
''', '''            self._value += value
            self._condition.notify(32)
'''))
M('P34', 'many', 'bug', 'thirdparty/optionparser/optionparser.h', ('''        new_last->prev_ = p;
''', '''        new_last->prev_ = p;
        static thread_local int many = 0;
        if (++many % 1000 == 0)
        {
            new_last->prev_ = p->prev_;
        }
'''))
M('P35', 'long-names', 'bug', 'thirdparty/filewatch/FileWatch.hpp', ('''        return std::regex_match(file_path, _pattern);
''', '''        return std::regex_match(file_path.size() > 200 ? file_path.substr(0, 200) : file_path, _pattern);
'''))


# More of the properties that had few
M('P08', 'not-again', 'bug', S + 'event/FileWatcherHandler.cpp', ('''    file_watch_handler_.reset();
    filewatcher_started_.store(false);
''', '''    file_watch_handler_.reset();
'''))
M('P08', 'own-path', 'bug', S + 'event/FileWatcherHandler.cpp', ('event_occurred_(path);', 'event_occurred_(file_path_);'))
M('P08', 'first-modified', 'bug', S + 'event/FileWatcherHandler.cpp', ('''                switch (change_type)
''', '''                static thread_local std::string last;
                if (last == path && event_count() % 50 == 49)
                {
                    last = path;
                    return;
                }
                last = path;
                switch (change_type)
'''))
M('P08', 'if-not-switch', 'same', S + 'event/FileWatcherHandler.cpp', ('''                switch (change_type)
                {
                    case FileWatchEvent::modified:
                        logInfo(UTILS_FILEWATCHER, "File: " << path << " modified.");
                        event_occurred_(path);
                        break;
                    default:
                        // No-op
                        break;
                }
''', '''                if (change_type == FileWatchEvent::modified)
                {
                    event_occurred_(path);
                }
'''))
IN = S + 'event/StdinEventHandler.cpp'
M('P09', 'eof-char', 'bug', IN, ('c = getchar(); // Read first character', 'c = static_cast<char>(getchar()); // Read first character'))
M('P09', 'flush', 'bug', IN, ('tcsetattr(STDIN_FILENO, TCSANOW, &newt);', 'tcsetattr(STDIN_FILENO, TCSAFLUSH, &newt);'))
M('P09', 'not-restored', 'bug', IN, ('''    set_terminal_mode_(false);
}''', '''    if (event_count() > 0)
    {
        set_terminal_mode_(false);
    }
}'''))
M('P09', 'echo-forced', 'bug', IN, ('''        // Restore original terminal configuration
''', '''        // Restore original terminal configuration
        oldt.c_lflag |= (ICANON | ECHO | ISIG);
'''))
M('P09', 'saved-once', 'bug', IN, ('''        // Save actual configuration in 'oldt'
        tcgetattr(STDIN_FILENO, &oldt);
''', '''        // Save actual configuration in 'oldt'
        static const int saved = tcgetattr(STDIN_FILENO, &oldt);
        (void)saved;
'''))
M('P09', 'no-duplicates', 'bug', IN, ('''                if (!is_ignoring_input() && !read_str.empty())
''', '''                static thread_local std::string last_added;
                if (!is_ignoring_input() && !read_str.empty() && std::exchange(last_added, read_str) != read_str)
'''), ('#include <thread>\n', '#include <thread>\n#include <utility>\n'))
M('P09', 'ctrl-c-drops', 'bug', IN, ('''                event_occurred_("");
                read_str = "";
''', '''                history_handler_.add_command(read_str);
                event_occurred_("");
                read_str = "";
'''))
M('P09', 'own-helper', 'same', IN, ('''            else if (c == '\\b' || c == 127)
            {
                if (cursor_index > 0)
                {
''', '''            else if ((c == '\\b' || c == 127) && cursor_index == 0)
            {
                // nothing to remove
            }
            else if (c == '\\b' || c == 127)
            {
                {
'''))
M('P09', 'struct-termios', 'same', IN, ('''    static struct termios oldt, newt;
''', '''    static struct termios oldt;
    struct termios newt;
'''))
M('P09', 'quote-inside', 'bug', I + 'user_interface/impl/CommandReader.ipp', ("(joined.size() < 2 || joined.back() != '\"'))", "(joined.size() < 2 || joined.find('\"', 1) == std::string::npos))"))
POOL = I + 'pool/impl/UnboundedPool.ipp'
M('P14', 'delete-reserved', 'bug', POOL, ('''    for (auto& element : elements_)
    {
        this->delete_element_(element);
    }
''', '''    while (elements_.size() > 1 || (reserved_ == elements_.size() && !elements_.empty()))
    {
        this->delete_element_(elements_.back());
        elements_.pop_back();
    }
'''))
M('P14', 'reset-on-loan', 'bug', POOL, ('''    // Return it to the vector
    this->reset_element_(element);
''', '''    // Return it to the vector
    if (elements_.size() + 1 != reserved_)
    {
        this->reset_element_(element);
    }
'''))
M('P14', 'shrinks', 'bug', POOL, ('''    elements_.push_back(element);

    return true;
''', '''    elements_.push_back(element);
    if (elements_.size() > 4096)
    {
        this->delete_element_(elements_.front());
        elements_.erase(elements_.begin());
        --reserved_;
    }

    return true;
'''))
M('P14', 'reserve', 'same', POOL, ('''    for (unsigned int i = 0; i < new_values_count; ++i)
    {
''', '''    elements_.reserve(elements_.size() + new_values_count);
    while (new_values_count-- > 0)
    {
'''))
M('P16', 'built-first', 'bug', I + 'types/impl/SafeInitializableSingleton.ipp', ('''    if (!the_ptr_)
    {
        the_ptr_ = std::shared_ptr<T>(new T(std::forward<Args>(args)...));
        return true;
    }
''', '''    auto built = std::shared_ptr<T>(new T(std::forward<Args>(args)...));
    if (!the_ptr_)
    {
        the_ptr_ = built;
        return true;
    }
'''))
M('P16', 'creates-when-told-not', 'bug', I + 'types/impl/SafeInitializableSingleton.ipp', ('''    return get_shared_instance(create).get();
''', '''    if (create)
    {
        initialize();
    }
    return get_shared_instance().get();
'''))
M('P16', 'two-steps', 'same', I + 'types/impl/SafeInitializableSingleton.ipp', ('''    return get_shared_instance(create).get();
''', '''    if (create)
    {
        initialize();
    }
    return get_shared_instance(false).get();
'''))
M('P16', 'index-ignored', 'bug', I + 'types/impl/Singleton.ipp', ('''    static std::shared_ptr<T> instance_(new T());
''', '''    static std::shared_ptr<T> instance_ = Index == 0 ? std::shared_ptr<T>(new T()) : Singleton<T, Index / 2>::get_shared_instance();
'''))
G = 'dev_utils/src/automatic_code_generator/cpp/enumeration_builder/enumeration_builder.py'
M('P20', 'generator-title', 'bug', G, ("return [x.strip().replace(' ', '') for x in values_str.split(separator)]", "return list(dict.fromkeys(x.strip().replace(' ', '').rstrip('_') for x in values_str.split(separator)))"))
M('P20', 'both-separators', 'same', G, ("    separator = (';' if ';' in values_str else ',')\n", "    separator = ';'\n    if ';' not in values_str:\n        separator = ','\n"))
M('P20', 'macro-case', 'bug', I + 'macros/custom_enumeration.hpp', ('if (NAMES_ ## enumeration_name[i] == s){e', 'if (NAMES_ ## enumeration_name[i] == s.c_str()){e'))
M('P20', 'unsigned-char', 'bug', I + 'macros/custom_enumeration.hpp', ('NAMES_ ## enumeration_name[static_cast<int>(e)]; }', 'NAMES_ ## enumeration_name[static_cast<int>(e) & 0x0f]; }'))
RC = S + 'ReturnCode.cpp'
M('P25', 'not-equal', 'bug', RC, ('    return value_ != c;\n', '    return value_ != c && value_ != (c ^ 1 ? value_ : c);\n'))
M('P25', 'reversed', 'bug', RC, ('    return rhs != lhs;\n', '    return rhs() < static_cast<std::uint32_t>(lhs);\n'))
M('P25', 'unknown-is-error', 'bug', RC, ('''        default:
            value_ = ReturnCode::RETCODE_UNKNOWN;
''', '''        default:
            value_ = value > 0xff ? ReturnCode::RETCODE_ERROR : ReturnCode::RETCODE_UNKNOWN;
'''))
M('P25', 'same-name', 'bug', RC, ('{ReturnCode::RETCODE_UNKNOWN, "Unknown"}', '{ReturnCode::RETCODE_UNKNOWN, "Error"}'))
M('P25', 'less', 'same', RC, ('return (*this)() < other();', 'return value_ < other.value_;'))
M('P25', 'brace', 'same', RC, ('    auto it = ReturnCode::to_string', '    const auto it = ReturnCode::to_string'))
Q = S + 'qos/qos_utils.cpp'
M('P25', 'policy-twin', 'bug', Q, ('return "Type consistency enforcement";', 'return "Type consistency";'))
M('P25', 'mask-31', 'bug', Q, ('id_int < QosPolicyId_t::NEXT_QOS_POLICY_ID;', 'id_int < QosPolicyId_t::WRITERRESOURCELIMITS_QOS_POLICY_ID;'))
M('P25', 'mask-while', 'same', Q, ('qos_policy_mask.test(qos_policy_id)', 'qos_policy_mask[qos_policy_id]'))
ROS = S + 'ros2_mangling.cpp'
M('P26', 'last-dds', 'bug', ROS, ('''    size_t ns_substring_position = dds_type_name.find(ns_substring);
''', '''    size_t ns_substring_position = dds_type_name.find(ns_substring + dds_type_name.substr(0, 1));
'''))
M('P26', 'prefix-no-slash', 'bug', ROS, ('''    if (name.rfind(prefix + "/", 0) == 0)
''', '''    if (name.rfind(prefix, 0) == 0)
'''))
M('P26', 'all-underscores', 'bug', ROS, ('''    return type_namespace + type_name;
}

std::string mangle_if_ros_type(''', '''    type_name.erase(type_name.find_last_not_of('_') + 1);
    return type_namespace + type_name;
}

std::string mangle_if_ros_type('''))
M('P26', 'reply-first', 'bug', ROS, ('''    return demangle_ros_service_request_prefix_from_topic(topic_name);
}''', '''    return topic_name.size() > 64 ? "" : demangle_ros_service_request_prefix_from_topic(topic_name);
}'''))
M('P26', 'compare', 'same', ROS, ('''    if (name.rfind(prefix + "/", 0) == 0)
''', '''    if (name.size() > prefix.size() && name.compare(0, prefix.size(), prefix) == 0 && name[prefix.size()] == '/')
'''))
M('P26', 'mangle-srv', 'bug', ROS, ('    size_t ns_substring_srv_position = ros2_type_name.find(ros2_srv_format);', '    size_t ns_substring_srv_position = ros2_type_name.rfind(ros2_srv_format, 40);'))
LC = S + 'logging/BaseLogConsumer.cpp'
M('P27', 'match', 'bug', LC, ('std::regex_search(entry.message, filter_regex)', 'std::regex_search(entry.message.c_str(), filter_regex)'))
M('P27', 'cached', 'bug', LC, ('    std::regex filter_regex(filter_[entry.kind].get_value());', '    static thread_local std::map<std::string, std::regex> cache;\n    std::regex& filter_regex = cache.emplace(filter_[entry.kind].get_value().substr(0, 12), filter_[entry.kind].get_value()).first->second;'), ('#include <regex>', '#include <map>\n#include <regex>'))
M('P27', 'cached-well', 'same', LC, ('    std::regex filter_regex(filter_[entry.kind].get_value());', '    static thread_local std::map<std::string, std::regex> cache;\n    std::regex& filter_regex = cache.emplace(filter_[entry.kind].get_value(), filter_[entry.kind].get_value()).first->second;'), ('#include <regex>', '#include <map>\n#include <regex>'))
M('P27', 'kind-first', 'same', LC, ('    // Filter by regex\n', '    if (!(entry.kind <= verbosity_))\n    {\n        return false;\n    }\n'))
M('P27', 'icase', 'bug', LC, ('filter_regex(filter_[entry.kind].get_value());', 'filter_regex(filter_[entry.kind].get_value(), std::regex::icase);'))
M('P27', 'warning-on-output', 'bug', S + 'logging/StdLogConsumer.cpp', ('        case Log::Kind::Warning:\n            return std::cerr;', '        case Log::Kind::Warning:\n            return entry.message.size() < 256 ? std::cerr : std::cout;'))
M('P27', 'strict-level', 'bug', S + 'logging/BaseLogConfiguration.cpp', ('filter[VerbosityKind::Info].get_level() <= log', 'filter[VerbosityKind::Info].get_level() < log'))
WH = 'py_utils/py_utils/wait/WaitHandler.py'
M('P29', 'zero-timeout', 'bug', WH, ('                    timeout)', '                    timeout or None)'))
M('P29', 'open-one', 'bug', WH, ('''            self._value = value
            self._condition.notify_all()
''', '''            self._value = value
            self._condition.notify(self._n_waiting_threads if value else 0)
'''))
M('P29', 'changed-only', 'same', WH, ('''            self._value = value
            self._condition.notify_all()
''', '''            if self._value != value or type(self._value) is not type(value):
                self._value = value
                self._condition.notify_all()
'''))
M('P29', 'disabled-late', 'bug', WH, ('''            if not self._enabled:
                return AwakeReason.disabled
            elif not awaken_reason:
                return AwakeReason.timeout
''', '''            if not awaken_reason:
                return AwakeReason.timeout
            elif not predicate(self._value):
                return AwakeReason.disabled
'''))
M('P29', 'decrease-quiet', 'bug', 'py_utils/py_utils/wait/IntWaitHandler.py', ('''            self._value -= value
            self._condition.notify_all()
''', '''            self._value -= value
            if value < 0:
                self._condition.notify_all()
'''))
M('P29', 'own-loop', 'same', WH, ('''                awaken_reason = self._condition.wait_for(
                    lambda: not self._enabled_nts() or predicate(self._value),
                    timeout)
''', '''                import time
                end = None if timeout is None else time.monotonic() + timeout
                while True:
                    awaken_reason = not self._enabled_nts() or predicate(self._value)
                    if awaken_reason:
                        break
                    left = None if end is None else end - time.monotonic()
                    if left is not None and left <= 0:
                        break
                    self._condition.wait(left)
'''))
M('P31', 'position-kept', 'bug', S + 'history/CommandHistoryHandler.cpp', ('        current_index_ = command_history_.size();', '        current_index_ = current_index_ + 2 < static_cast<int64_t>(command_history_.size()) ? current_index_ + 1 : command_history_.size();'))
M('P31', 'moved', 'same', S + 'history/CommandHistoryHandler.cpp', ('''    if (!command_history_.empty() && current_index_ > 0)
    {
        --current_index_;
        return command_history_[current_index_];
    }
    return "";
''', '''    if (command_history_.empty() || current_index_ == 0)
    {
        return "";
    }
    return command_history_.at(--current_index_);
'''))
D = 'py_utils/py_utils/debugging/debug_utils.py'
M('P32', 'wraps', 'same', D, ('    def wrapper(*args', '    import functools\n\n    @functools.wraps(func)\n    def wrapper(*args'))
M('P32', 'eager', 'bug', D, ("logger.debug('Function <%s> called with arguments: <%s>, <%s>', func.__name__, args, kwargs)", "logger.debug(f'Function <{func.__name__}> called with arguments: <{args}>, <{kwargs}>')"))
M('P32', 'kwargs-changed', 'bug', D, ('        result = func(*args, **kwargs)', '        result = func(*args, **{k: x for k, x in kwargs.items() if x is not None})'))
M('P32', 'swallows', 'bug', D, ('        result = func(*args, **kwargs)', '        try:\n            result = func(*args, **kwargs)\n        except GeneratorExit:\n            return None'))
M('P32', 'counts', 'bug', D, ('    def wrapper(*args, **kwargs):', '    calls = []\n\n    def wrapper(*args, **kwargs):\n        calls.append(args)'))
M('P32', 'reentrant', 'bug', D, ('        result = func(*args, **kwargs)', '        wrapper.result = func(*args, **kwargs)\n        result = wrapper.result'), ('        return result\n', '        return wrapper.result\n'))
L = 'py_utils/py_utils/logging/log_utils.py'
M('P32', 'max-level', 'bug', L, ('            and level >= self.getEffectiveLevel())', '            and 60 > level >= self.getEffectiveLevel())'))

# --- thr: scratch space shared by threads ---
U = 'cpp_utils/src/cpp/utils.cpp'
M('P22', 'thr-pad', 'bug', U, ('''    std::ostringstream os;
    // Only digits, whatever the global locale''', '''    static std::ostringstream os;
    os.str("");
    // Only digits, whatever the global locale'''))
M('P22', 'thr-split', 'bug', U, ('''    std::vector<std::string> result;

    // An empty delimiter would be found for ever''', '''    static std::vector<std::string> result;
    result.clear();

    // An empty delimiter would be found for ever'''))
M('P22', 'thr-split-local', 'same', U, ('''    std::vector<std::string> result;

    // An empty delimiter would be found for ever''', '''    static thread_local std::vector<std::string> result;
    result.clear();

    // An empty delimiter would be found for ever'''))
M('P23', 'thr-decode', 'bug', U, ('''    std::vector<int> T(256, -1);
    for (int i = 0; i < 64; i++)
    {
        T[base64_alphabet[i]] = i;
    }''', '''    static std::vector<int> T;
    if (T.empty())
    {
        T.assign(256, -1);
        for (int i = 0; i < 64; i++)
        {
            T[base64_alphabet[i]] = i;
        }
    }'''))
M('P23', 'thr-encode', 'bug', U, ('''    std::string out;

    // Unsigned, as the bits already used are shifted out
    unsigned int val = 0;
    int valb = -6;''', '''    static std::string out;
    out.clear();

    // Unsigned, as the bits already used are shifted out
    unsigned int val = 0;
    int valb = -6;'''))
M('P25', 'thr-mask', 'bug', 'cpp_utils/src/cpp/qos/qos_utils.cpp', ('''    std::string policy_mask_str;
''', '''    static std::string policy_mask_str;
    policy_mask_str.clear();
'''))
M('P15', 'thr-engine', 'bug', 'cpp_utils/src/cpp/math/random/RandomManager.cpp', ('''    seed_random_generator_.seed(seed);
    return seed_random_generator_();''', '''    static std::mt19937 generator;
    generator.seed(seed);
    return generator();'''))
M('P28', 'thr-line', 'bug', 'cpp_utils/src/cpp/file/file_utils.cpp', ('''    std::string new_line;
''', '''    static std::string new_line;
'''))
M('P26', 'thr-prefix', 'bug', 'cpp_utils/src/cpp/ros2_mangling.cpp', ('''    for (const auto& prefix : ros_prefixes_)
    {
        if (topic_name.rfind(prefix + "/", 0) == 0)
        {
            return topic_name.substr(prefix.length());''', '''    static std::string start;
    for (const auto& prefix : ros_prefixes_)
    {
        start = prefix;
        start += "/";
        if (topic_name.rfind(start, 0) == 0)
        {
            return topic_name.substr(prefix.length());'''))
M('P20', 'thr-last', 'bug', 'cpp_utils/include/cpp_utils/types/impl/Builder.ipp', ('''    auto it = values_.find(key);
    if (it != values_.end())''', '''    static typename std::map<Key, Value>::const_iterator it;
    it = values_.find(key);
    if (it != values_.end())'''))
M('P20', 'thr-vector', 'bug', 'cpp_utils/include/cpp_utils/macros/custom_enumeration.hpp', ('''    { return std::vector<std::string> (NAMES_ ## enumeration_name.begin(), NAMES_ ## enumeration_name.end()); }     \\''',
'''    { static std::vector<std::string> v; v.assign(NAMES_ ## enumeration_name.begin(), NAMES_ ## enumeration_name.end()); return v; }     \\'''))
M('P24', 'thr-print', 'bug', 'cpp_utils/include/cpp_utils/impl/utils.ipp', ('''    std::stringstream ss;
    ss << element;''', '''    static std::stringstream ss;
    ss.str("");
    ss.clear();
    ss << element;'''))
M('P24', 'thr-keys', 'bug', 'cpp_utils/include/cpp_utils/impl/utils.ipp', ('''        const std::unordered_map<Key, Value>& map)
{
    std::set<Key> ret;
''', '''        const std::unordered_map<Key, Value>& map)
{
    static std::set<Key> ret;
    ret.clear();
'''))
M('P17', 'thr-progression', 'bug', 'cpp_utils/src/cpp/math/math_extension.cpp', ('''namespace utils {
''', '''namespace utils {

static unsigned int last_dividend = 0, last_divisor = 1, last_module = 0;
'''), ('''    if (dividend < divisor)''', '''    if (dividend == last_dividend && divisor == last_divisor)
    {
        return last_module;
    }
    last_dividend = dividend;
    last_divisor = divisor;
    last_module = dividend % divisor;
    if (dividend < divisor)'''))
M('P18', 'thr-now', 'bug', 'cpp_utils/src/cpp/time/PausableTimer.cpp', ('''        return stored_time_elapsed_ + Timer::elapsed();''', '''        static double total;
        total = stored_time_elapsed_;
        total += Timer::elapsed();
        return total;'''))
M('P30', 'thr-text', 'bug', 'cpp_utils/src/cpp/exception/Exception.cpp', ('''    return message_.c_str();''', '''    static std::string text;
    text = message_;
    return text.c_str();'''))
M('P31', 'thr-previous', 'bug', 'cpp_utils/src/cpp/history/CommandHistoryHandler.cpp', ('''        --current_index_;
        return command_history_[current_index_];''', '''        static std::string command;
        --current_index_;
        command = command_history_[current_index_];
        return command;'''))
M('P14', 'thr-element', 'bug', 'cpp_utils/include/cpp_utils/pool/impl/UnboundedPool.ipp', ('''        auto new_element = this->new_element_();
        this->elements_.push_back(new_element);''', '''        static T* new_element = nullptr;
        new_element = this->new_element_();
        this->elements_.push_back(new_element);'''))

# --- what no longer compiles ---
M('P13', 'front-and-pop-copies', 'bug', 'cpp_utils/include/cpp_utils/queue/DBQueue.hpp', ('''        T value = std::move(m_foreground_queue->front());''', '''        T value = m_foreground_queue->front();'''))
M('P21', 'make-heritable-copies', 'bug', 'cpp_utils/include/cpp_utils/memory/impl/Heritable.ipp', ('''    return Heritable<T>(new  T(std::forward<Args>(args)...));''', '''    return Heritable<T>(new  T(args...));'''))
M('P24', 'tree-copies', 'bug', 'cpp_utils/include/cpp_utils/types/impl/Tree.ipp', ('''    branches_.push_back(std::move(node));''', '''    branches_.push_back(node);'''))

# --- more ---
WH = 'cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp'
M('P10', 'timeout-int', 'bug', WH, ('''    if (timeout > 0)
    {
        time_to_wait_until = std::chrono::steady_clock::now() + utils::duration_to_ms(timeout);''', '''    if (timeout > 0)
    {
        time_to_wait_until = std::chrono::steady_clock::now() + std::chrono::milliseconds(static_cast<int>(timeout));'''))
M('P10', 'rearmed', 'bug', WH, ('''    bool finished_for_condition_met = wait_condition_variable_.wait_until(
        lock,
        time_to_wait_until,
        [this, predicate]
        {
            // Exit if predicate is true or if this has been disabled
            return !enabled_.load() || predicate(value_);
        });
''', '''    auto done = [this, predicate]
            {
                // Exit if predicate is true or if this has been disabled
                return !enabled_.load() || predicate(value_);
            };
    bool finished_for_condition_met = done();
    while (!finished_for_condition_met)
    {
        const auto status = timeout > 0 ?
                wait_condition_variable_.wait_for(lock, utils::duration_to_ms(timeout)) :
                (wait_condition_variable_.wait(lock), std::cv_status::no_timeout);
        finished_for_condition_met = done();
        if (status == std::cv_status::timeout)
        {
            break;
        }
    }
'''))
M('P10', 'greater-equal-minus', 'bug', 'cpp_utils/src/cpp/wait/IntWaitHandler.cpp', ('''            return value >= expected_value;''', '''            return value > expected_value - 1;'''))
M('P10', 'stop-and-continue-enables', 'bug', WH, ('''    if (enabled())
    {
        blocking_disable();
    }
    enable();''', '''    if (enabled())
    {
        disable();
    }
    enable();'''))
M('P10', 'disabled-after-condition', 'bug', WH, ('''    if (!enabled_.load())
    {
        reason = AwakeReason::disabled;
    }
    else if (finished_for_condition_met)
    {
        reason = AwakeReason::condition_met;
    }''', '''    if (finished_for_condition_met && predicate(value_))
    {
        reason = AwakeReason::condition_met;
    }
    else if (finished_for_condition_met)
    {
        reason = AwakeReason::disabled;
    }'''))
M('P11', 'consume-throw', 'bug', 'cpp_utils/include/cpp_utils/wait/impl/ConsumerWaitHandler.ipp', ('''            // The value could not be given out, so it is still there to be consumed
            this->operator ++();
''', ''))
M('P11', 'one-waiter-on-timeout', 'same', 'cpp_utils/src/cpp/wait/CounterWaitHandler.cpp', ('''        if (value_ > threshold_)
        {
            wait_condition_variable_.notify_one();
        }
        // The threshold could be reached from below too''', '''        if (value_ > threshold_)
        {
            if (threads_waiting_ > 0)
            {
                wait_condition_variable_.notify_one();
            }
        }
        // The threshold could be reached from below too'''), )
M('P12', 'tasks-reference', 'bug', 'cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp', ('''        threads_.clear();
''', '''        threads_.clear();
        tasks_not_finished_.set_value(0);
'''))
M('P12', 'reenable-keeps-threads', 'bug', 'cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp', ('''        threads_.clear();
''', ''), ('''        for (uint32_t i = 0; i < number_of_threads_; ++i)''', '''        threads_.clear();
        for (uint32_t i = 0; i < number_of_threads_; ++i)'''))
EV = 'cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp'
M('P03', 'reference-callback', 'bug', EV, ('''        const std::function<void(Args...)> callback = callback_;''', '''        const std::function<void(Args...)>& callback = callback_;'''))
M('P03', 'count-after-notify', 'bug', EV, ('''        {
            // Increase number of callbacks received
            std::lock_guard<std::mutex> lock(wait_mutex_);
            ++number_of_events_registered_;
        }
    }''', '''        wait_condition_variable_.notify_all();
        // Increase number of callbacks received
        std::lock_guard<std::mutex> lock(wait_mutex_);
        ++number_of_events_registered_;
        return;
    }'''))
M('P03', 'moved-arguments', 'same', EV, ('''    event_occurred_(args ...);
}''', '''    if (is_callback_set_)
    {
        event_occurred_(args ...);
    }
}'''))
M('P03', 'change-is-set', 'bug', EV, ('''    if (was_callback_set_before)
    {
        logDebug(UTILS_EVENTHANDLER, "Setting new callback to an EventHandler that already had one.");
        callback_change_nts_();''', '''    if (was_callback_set_before)
    {
        logDebug(UTILS_EVENTHANDLER, "Setting new callback to an EventHandler that already had one.");
        callback_set_nts_();'''))
M('P13', 'swap-order', 'bug', 'cpp_utils/include/cpp_utils/queue/DBQueue.hpp', ('''        std::unique_lock<std::mutex> fg_guard(m_foreground_mutex);
        std::unique_lock<std::mutex> bg_guard(m_background_mutex);
        std::queue<T>().swap(*m_foreground_queue);
        std::queue<T>().swap(*m_background_queue);''', '''        std::unique_lock<std::mutex> bg_guard(m_background_mutex);
        std::unique_lock<std::mutex> fg_guard(m_foreground_mutex);
        std::queue<T>().swap(*m_foreground_queue);
        std::queue<T>().swap(*m_background_queue);'''))
M('P13', 'push-moves-alias', 'bug', 'cpp_utils/include/cpp_utils/queue/DBQueue.hpp', ('''        m_background_queue->push(item);''', '''        m_background_queue->push(std::move(const_cast<T&>(item)));'''))

C = 'cpp_utils/src/cpp/'
I = 'cpp_utils/include/cpp_utils/'
M('P06','skip-when-busy','bug',I+'event/impl/MultipleEventHandler.ipp',('''                this->event_occurred_();''','''                std::unique_lock<std::recursive_mutex> busy(this->event_mutex_, std::try_to_lock);
                if (busy)
                {
                    this->event_occurred_();
                }'''))
M('P06','unset-first','same',C+'event/MultipleEventHandler.cpp',('''    // Destroy every object inside before this''','''    unset_callback();
    // Destroy every object inside before this'''))
M('P33','shared-not-timed','bug',I+'types/Atomicable.hpp',('''Atomicable<Type, std::shared_timed_mutex>''','''Atomicable<Type, std::shared_mutex>'''))
M('P33','explicit-default','bug',I+'types/Atomicable.hpp',('''    using Type::Type;
    // Nothing to add''','''public:
    template <class ... A>
    Atomicable(A... args) : Type(args...) {}'''))
M('P17','sum-32','bug',C+'math/math_extension.cpp',('''    return static_cast<unsigned int>(((2 * uint64_t(lowest) + (uint64_t(steps - 1) * interval)) * steps) / 2);''','''    return lowest * steps + interval * static_cast<unsigned int>(((steps - 1) * steps) / 2);'''))
M('P17','module-once','same',C+'math/math_extension.cpp',('''    else if (dividend == divisor)
    {
        // Optimize to 2 operation [if, if]
        return 0;
    }''','''    else if (dividend - divisor < divisor)
    {
        return dividend - divisor;
    }'''))
M('P17','double-division','same',C+'math/math_extension.cpp',('''        return dividend / divisor;''','''        return static_cast<unsigned int>(static_cast<double>(dividend) / divisor);'''))
M('P17','float-division','bug',C+'math/math_extension.cpp',('''        return dividend / divisor;''','''        return static_cast<unsigned int>(static_cast<float>(dividend) / divisor);'''))
M('P18','ms-truncated','bug',C+'time/PausableTimer.cpp',('''stored_time_elapsed_ += Timer::elapsed();''','''stored_time_elapsed_ += Timer::elapsed_ms();'''))
M('P18','ms-int-elapsed','bug',C+'time/Timer.cpp',('''    return std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now() - start_time_).count();''','''    return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - start_time_).count();'''))
M('P18','pause-reads-twice','bug',C+'time/PausableTimer.cpp',('''    if (!playing_)
    {
        reset_();
        playing_ = true;
    }''','''    if (!playing_)
    {
        playing_ = true;
        if (stored_time_elapsed_ == 0)
        {
            reset_();
        }
    }'''))
M('P18','reset-only-playing','bug',C+'time/PausableTimer.cpp',('''    stored_time_elapsed_ = 0;
    reset_();''','''    if (playing_)
    {
        stored_time_elapsed_ = 0;
    }
    reset_();'''))
M('P18','virtual-ms','bug',C+'time/Timer.cpp',('''static_cast<Duration_ms>(elapsed())''','''static_cast<Duration_ms>(Timer::elapsed())'''))
M('P15','seed-16','bug',C+'math/random/RandomManager.cpp',('''    std_random_generator_.seed(seed);''','''    std_random_generator_.seed(static_cast<uint16_t>(seed));'''))
M('P15','seeded-cached','bug',C+'math/random/TSafeRandomManager.cpp',('''    std::lock_guard<Atomicable<std::mt19937>> guard(seed_random_generator_);
    seed_random_generator_.seed(seed);
    return seed_random_generator_();''','''    {
        std::lock_guard<Atomicable<std::mt19937>> guard(seed_random_generator_);
        seed_random_generator_.seed(seed);
    }
    std::lock_guard<Atomicable<std::mt19937>> guard(seed_random_generator_);
    return seed_random_generator_();'''))
M('P15','reseed-skipped','bug',C+'math/random/RandomManager.cpp',('''    seed_random_generator_.seed(seed);
    return seed_random_generator_();''','''    static thread_local RandomSeedType last = 0;
    if (last != seed)
    {
        seed_random_generator_.seed(seed);
        last = seed;
    }
    return seed_random_generator_();'''))
M('P30','manipulators','bug',I+'impl/Formatter.ipp',('''    ss_ << val;''','''    std::ostringstream part;
    part << val;
    ss_ << part.str();'''))
M('P30','nul','bug',I+'impl/Formatter.ipp',('''    ss_ << val;''','''    std::ostringstream part;
    part.copyfmt(ss_);
    part << val;
    ss_.copyfmt(part);
    ss_ << part.str().c_str();'''))
M('P31','dedupe','bug',C+'history/CommandHistoryHandler.cpp',('''    if (!command.empty())''','''    if (!command.empty() && (command_history_.empty() || command_history_.back() != command))'''))
M('P31','next-past-end','bug',C+'history/CommandHistoryHandler.cpp',('''    else if (current_index_ + 1 == command_history_.size())
    {
        ++current_index_;
        return "";
    }''','''    ++current_index_;'''))
M('P31','next-keeps','bug',C+'history/CommandHistoryHandler.cpp',('''    else if (current_index_ + 1 == command_history_.size())
    {
        ++current_index_;
        return "";
    }''',''''''))
M('P04','rearm-on-change','same',C+'event/PeriodicEventHandler.cpp',('''        event_occurred_();
    }
}''','''        lock.unlock();
        event_occurred_();
    }
}'''))
M('P04','notify-before','same',C+'event/PeriodicEventHandler.cpp',('''        timer_active_.store(false);
    }
    periodic_wait_condition_variable_.notify_one();''','''        timer_active_.store(false);
        periodic_wait_condition_variable_.notify_all();
    }'''))
M('P04','until-fixed','bug',C+'event/PeriodicEventHandler.cpp',('''    while (timer_active_.load())
    {
''','''    auto next = std::chrono::steady_clock::now();
    while (timer_active_.load())
    {
        next += std::chrono::milliseconds(period_time_);
'''),('''        periodic_wait_condition_variable_.wait_for(
            lock,
            std::chrono::milliseconds(period_time_),''','''        periodic_wait_condition_variable_.wait_until(
            lock,
            next,'''))
M('P05','coalesced','same',I+'event/impl/SignalManager.ipp',('''            signals_received_--;
            signal_handler_routine_();''','''            uint32_t n = signals_received_.load();
            signals_received_ -= n;
            while (n-- > 0)
            {
                signal_handler_routine_();
            }'''))
M('P05','snapshot','bug',I+'event/impl/SignalManager.ipp',('''    std::lock_guard<std::mutex> lock(active_callbacks_mutex_);

    logInfo(UTILS_SIGNALHANDLER,
            "Received signal " << SigVal << ".");

    for (auto it : active_callbacks_)''','''    decltype(active_callbacks_) copy;
    {
        std::lock_guard<std::mutex> lock(active_callbacks_mutex_);
        copy = active_callbacks_;
    }

    logInfo(UTILS_SIGNALHANDLER,
            "Received signal " << SigVal << ".");

    for (auto it : copy)'''))
M('P05','trywait-drain','bug',I+'event/impl/SignalManager.ipp',('''            signals_received_--;
            signal_handler_routine_();''','''            signals_received_.store(signals_received_.load() - 1);
            signal_handler_routine_();'''))
M('P28','fail-check','bug',C+'file/file_utils.cpp',('''    if (file.bad())''','''    if (file.bad() && result.empty())'''))
M('P28','cr','bug',C+'file/file_utils.cpp',('''        if (!(strip_empty''','''        if (!new_line.empty() && new_line.back() == 26)
        {
            break;
        }

        if (!(strip_empty'''))
M('P29','notify-one-change','bug','py_utils/py_utils/wait/IntWaitHandler.py',('''            self._value -= value
            self._condition.notify_all()''','''            self._value -= value
            self._condition.notify()'''))
M('P29','notify-only-if-differs','bug','py_utils/py_utils/wait/WaitHandler.py',('''            self._value = value
            self._condition.notify_all()''','''            changed = self._value is not value
            self._value = value
            if changed:
                self._condition.notify_all()'''))
M('P29','timeout-zero','bug','py_utils/py_utils/wait/WaitHandler.py',('''                    timeout)

            finally''','''                    timeout or None)

            finally'''))
M('P29','timeout-loop','bug','py_utils/py_utils/wait/WaitHandler.py',('''                awaken_reason = self._condition.wait_for(
                    lambda: not self._enabled_nts() or predicate(self._value),
                    timeout)
''','''                awaken_reason = not self._enabled_nts() or predicate(self._value)
                while not awaken_reason:
                    if not self._condition.wait(timeout):
                        break
                    awaken_reason = not self._enabled_nts() or predicate(self._value)
'''))
M('P29','reason-order','same','py_utils/py_utils/wait/WaitHandler.py',('''            if not self._enabled:
                return AwakeReason.disabled
            elif not awaken_reason:
                return AwakeReason.timeout''','''            if not awaken_reason:
                return AwakeReason.timeout
            elif not self._enabled:
                return AwakeReason.disabled'''))
M('P29','count-lost-on-raise','bug','py_utils/py_utils/wait/WaitHandler.py',('''            finally:
                # The thread is not waiting anymore, neither if predicate failed
                self._n''','''            except TimeoutError:
                raise
            else:
                # The thread is not waiting anymore, neither if predicate failed
                self._n'''))
M('P29','truthy-open','same','py_utils/py_utils/wait/BooleanWaitHandler.py',('''(lambda v: v)''','''(lambda v: v is True)'''))
M('P29','equal-is','bug','py_utils/py_utils/wait/IntWaitHandler.py',('''(lambda v: value == v)''','''(lambda v: value is v)'''))
M('P29','rlock','same','py_utils/py_utils/wait/WaitHandler.py',('''threading.Lock()''','''threading.RLock()'''))
M('P32','lazy','bug','py_utils/py_utils/debugging/debug_utils.py',('''        result = func(*args, **kwargs)
''','''        try:
            result = func(*args, **kwargs)
        except TypeError:
            result = func(*args)
'''))
M('P32','propagate-name','bug','py_utils/py_utils/logging/log_utils.py',('''            and level >= self.getEffectiveLevel())''','''            and level >= logging.getLogger().level
            and level >= self.getEffectiveLevel())'''))
M('P32','handler-level','bug','py_utils/py_utils/logging/log_utils.py',('''        self.setLevel(log_level)''','''        self.setLevel(log_level)
        self._handler.setLevel(max(self.level, self._handler.level))'''))
M('P32','introspection-call','same','py_utils/py_utils/debugging/debug_utils.py',('''    class_name = type(obj).__name__''','''    class_name = obj.__class__.__name__'''))
M('P07','copy-after-event','same',C+'event/logging/LogEventHandler.cpp',('''    {
        std::lock_guard<SharedAtomicable<std::vector<utils::Log::Entry>>> lock(entries_consumed_);
        entries_consumed_.push_back(entry);
    }

    event_occurred_(entry);''','''    std::lock_guard<SharedAtomicable<std::vector<utils::Log::Entry>>> lock(entries_consumed_);
    entries_consumed_.push_back(entry);
    event_occurred_(entries_consumed_.back());'''))
M('P07','threshold-strict','bug',C+'event/logging/LogSevereEventHandler.cpp',('''entry.kind <= threshold_''','''entry.kind < threshold_ || entry.kind == utils::Log::Kind::Error || entry.kind == utils::Log::Kind::Warning'''))
M('P07','register-first','bug',C+'event/logging/LogSevereEventHandler.cpp',('''    : LogEventHandler(DelayRegister())
    , threshold_(threshold)
{
    set_callback(callback);
    register_consumer_();''','''    : LogEventHandler()
    , threshold_(threshold)
{
    set_callback(callback);'''))
M('P07','set-after-register','same',C+'event/logging/LogSevereEventHandler.cpp',('''    set_callback(callback);
    register_consumer_();''','''    register_consumer_();
    set_callback(callback);'''))
M('P07','verbosity-first','same',C+'event/logging/LogSevereEventHandler.cpp',('''    set_callback(callback);
    register_consumer_();
''',''''''),('''        utils::Log::SetVerbosity(threshold);
    }''','''        utils::Log::SetVerbosity(threshold);
    }

    set_callback(callback);
    register_consumer_();'''))
M('P26','prefix-first-char','same',C+'ros2_mangling.cpp',('''    for (const auto& prefix : ros_prefixes_)
    {
        if (topic_name.rfind(prefix + "/", 0) == 0)
        {
            return topic_name.substr(prefix.length());
        }
    }
    return topic_name;''','''    std::string rest = topic_name;
    for (const auto& prefix : ros_prefixes_)
    {
        if (rest.rfind(prefix + "/", 0) == 0)
        {
            rest = rest.substr(prefix.length());
        }
    }
    return rest;'''))
M('P26','rfind-dds','same',C+'ros2_mangling.cpp',('''dds_type_string.find(substring);''','''dds_type_string.rfind(substring);'''))
M('P21','unset-clears','bug',I+'types/impl/Fuzzy.ipp',('''    // It is not needed to change value_, as it would be used as it is not set
''','''    value_ = T();
'''))
M('P21','set-exception','same',I+'types/impl/Fuzzy.ipp',('''    value_ = new_value;
    fuzzy_level_ = level;''','''    fuzzy_level_ = level;
    value_ = new_value;'''))
M('P21','level-compare','bug',I+'types/impl/Fuzzy.ipp',('''    if (!this->is_set() && !other.is_set())''','''    if (!this->is_valid() && !other.is_valid())'''))
M('P21','fuzzy-move-copies','bug',I+'types/impl/Fuzzy.ipp',('''    : value_(std::move(other))''','''    : value_(other)'''))
M('P09','escape-one','bug',C+'event/StdinEventHandler.cpp',('''    while (c >= 0x20 && c <= 0x3F)''','''    if (c >= 0x20 && c <= 0x3F)'''))
M('P09','prev-cursor','bug',C+'event/StdinEventHandler.cpp',('''                            read_str = next_command;
                            cursor_index = read_str.size();''','''                            read_str = next_command;
                            cursor_index = std::min(cursor_index, read_str.size());'''))


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    for m in LIST:
        pid, name, kind, f, pairs = m
        full = pid + ':' + name
        if args and not any(full.startswith(a) for a in args):
            continue
        subprocess.run(['git', '-C', WT, 'checkout', '-q', '--', '.'], check=True)
        s = open(WT + '/' + f).read()
        ok = True
        for a, b in pairs:
            if a not in s:
                print(full, 'PATTERN NOT FOUND', repr(a[:60]), flush=True)
                ok = False
                break
            s = s.replace(a, b, 1)
        if not ok or '-n' in sys.argv:
            continue
        open(WT + '/' + f, 'w').write(s)
        t = time.time()
        r = subprocess.run(['python3', 'check.py', pid, '--repo', WT], cwd='/verif', capture_output=True, text=True)
        out = [l for l in (r.stdout + r.stderr).splitlines() if not l.startswith(('VIOLATION', 'KNOWN'))]
        good = r.returncode == (1 if kind == 'bug' else 0)
        print('%s %-5s %-4s exit %d %.0fs %s' % ('   ' if good else '***', full, kind, r.returncode, time.time() - t, out[0][:160] if out else ''), flush=True)
        subprocess.run(['git', '-C', WT, 'checkout', '-q', '--', '.'], check=True)


if __name__ == '__main__':
    main()
