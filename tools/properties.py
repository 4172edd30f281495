#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os
L='crates/stream-download/src/'
def p(id,title,statement,over,qt,why,files,mech,state=(),observe=(),hook=None):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=[f if f.startswith('crates') else L+f for f in files],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=(b if b.startswith('crates') else L+b)) for a,b in mech],
        observe_at=list(observe),hook_needed=hook))
HOOK='cfg stream_download_sim: schedule points at the atomics of the source handle (locks and condvars are simulated through a parking_lot replacement)'
P=[
p('C01','Every byte handed out is the byte of the resource at that position',
 'Whatever sequence of reads and seeks a client performs, and however the download, its writes and its reconnects interleave with them, each byte returned by a read equals the byte of the remote resource at the reader\'s current position. No read returns more bytes than asked for, bytes beyond the end of the resource, or bytes that were never downloaded; this includes storage whose writer buffers until it is flushed.',
 ['schedules','inputs','fault_sequences','configurations'],
 'all resources, chunkings, client operation sequences, storages, prefetch and batch sizes, transports, schedules of reader thread and download task, and sequences of chunk errors, empty chunks, stalls and short writes',
 'The tests compare the output for a handful of files, chunkings and seek scripts under whatever schedule the machine happens to produce; corruption needs a particular interleaving of a seek with a write in progress or a particular fault.',
 ['source/mod.rs','source/handle.rs','lib.rs','storage/'],
 [('download loop: writes chunks, records downloaded ranges','source/mod.rs'),('reader waits for its range, then reads what is recorded as downloaded','lib.rs')],
 [('downloaded','ranges of the resource that are in the storage','source/handle.rs')],['Read::read','Seek::seek'],HOOK),
p('C02','End of stream is reported exactly at the end of the resource',
 'If nothing fails, a client that keeps reading gets every byte of the resource and then 0. A read of 0 bytes (into a non-empty buffer) or an unexpected error before the end of the resource never happens, except that a transfer which really was cut short and cannot be continued is reported as ended or failed; storage calls that are short or interrupted do not count as failures. The reported content length is the one the source announced.',
 ['schedules','inputs','fault_sequences','configurations'],
 'all resource lengths (0 included, known or unknown), chunkings, read sizes, schedules and recoverable faults',
 'Tests read whole files with well behaved sources; premature end needs a truncated body, a chunk error near the end, or a read that races with the end of the download.',
 ['source/mod.rs','source/handle.rs','lib.rs'],
 [('missing parts are requested again before the download counts as complete','source/mod.rs'),('EOF handling in read','lib.rs')],
 (),['Read::read','StreamDownload::content_length'],HOOK),
p('C03','No reader waits for ever, and not longer than its data takes to arrive',
 'A read or seek returns once its data is stored (and the prefetch target is met), once the download ended, failed or was cancelled; no wake-up is lost. A read whose bytes are already stored does not wait for further network activity, even if the source goes silent.',
 ['schedules','inputs','fault_sequences'],
 'all schedules of reader, download task and canceller at lock, condvar and atomic granularity, all positions at which the source falls silent',
 'A lost wake-up needs a preemption inside a window of a few instructions; tests run a few schedules of the real scheduler.',
 ['source/handle.rs','source/mod.rs','lib.rs'],
 [('requested position / position reached handshake','source/handle.rs'),('add_downloaded notifies','source/mod.rs')],
 [('requested position','end of what the reader waits for','source/handle.rs'),('waiter','condvar state','source/handle.rs')],['Read::read','Seek::seek'],HOOK),
p('C04','Seeks land exactly where asked and reject what cannot be',
 'A successful seek returns the absolute position that was asked for (limited to the length if it is known) and the next read starts there. A seek before the start fails with InvalidInput, one relative to an unknown end with Unsupported, both without changing the position or disturbing the download; any other seek fails only if the download failed, was cancelled, or the storage cannot hold the position.',
 ['schedules','inputs','histories'],
 'all sequences of absolute, relative and end-relative seeks (positions before 0, at and beyond the end, extreme values) mixed with reads, at all stages of the download',
 'Tests seek to a few chosen places in sequence; they do not cover arithmetic at the edges or seeks that race with prefetch, with completion or with another seek\'s network request.',
 ['lib.rs','source/handle.rs','source/mod.rs'],
 [('get_absolute_seek_position, normalize_requested_position','lib.rs'),('seek request channel and handle_seek','source/mod.rs')],
 (),['Seek::seek'],HOOK),
p('C05','Bounded storage never exceeds its size and never hands out overwritten data',
 'With bounded storage, at most the configured number of bytes is kept, bytes the reader has not consumed yet are not overwritten, and every read returns either correct data or an error. Reads and forward seeks larger than the capacity are rejected with InvalidInput, smaller ones are not.',
 ['schedules','inputs','histories','configurations'],
 'all capacities, chunk sizes relative to the capacity, read sizes, seek patterns (inside and outside of the window), known and unknown lengths, memory and file backed, schedules',
 'The tests use a few capacities and orderly readers; overwriting needs a particular alignment of the ring positions with a seek or with the writer running in between.',
 ['storage/bounded.rs','storage/adaptive.rs','lib.rs','source/mod.rs'],
 [('ring buffer positions shared by reader and writer','storage/bounded.rs'),('excessive read and seek checks','lib.rs'),('downloaded ranges are dropped on a real seek','source/mod.rs')],
 (),['Read::read','Seek::seek','StorageProvider'],HOOK),
p('C06','A full buffer pauses the download and reading resumes it',
 'When a bounded buffer is full, the download waits and continues as soon as a read made room, using all of it before the reader has to come back, whatever the relation of chunk, buffer and read sizes; a reader that keeps reading gets the whole resource. While it waits, seeks and cancellation are still served.',
 ['schedules','inputs','configurations'],
 'all chunk/capacity/read size combinations and schedules of the reader with the waiting writer',
 'The deadlock between a full buffer and a waiting reader depends on who checks first; the tests run a few sizes on one schedule.',
 ['source/mod.rs','source/handle.rs','storage/bounded.rs','lib.rs'],
 [('write loop waits for a read notification','source/mod.rs'),('NotifyRead','source/handle.rs')],
 [('write_requested','the writer waits for space','source/handle.rs')],['Read::read'],HOOK),
p('C07','A download that failed is reported to every reader, at once and for good',
 'If the download fails fatally (storage error, failed seek request, an error from the finish hook, a panic in a callback, shutdown of the runtime), blocked and later reads and seeks return an error; none of them hangs, and none succeeds after the failure became visible. The finish hook is told about the failure exactly once.',
 ['schedules','fault_sequences','crash_points'],
 'all points at which a storage call, a request, a callback or the runtime fails, with the reader in any state',
 'Tests inject one or two failures at fixed places; a hang needs the failure to land between the reader\'s check and its wait.',
 ['source/mod.rs','source/handle.rs','lib.rs'],
 [('set_failed before signalling the end','source/mod.rs'),('Drop of the download task object','source/mod.rs'),('check_for_failure','lib.rs')],
 [('download_status','the download failed','source/handle.rs')],['Read::read','Seek::seek','SourceStream::on_finish'],HOOK),
p('C08','Cancellation takes effect at once and releases everything',
 'After cancellation - through the stream, a token, a callback, or by dropping the stream - blocked operations return promptly, further ones do not hang, the finish hook runs with the cancelled outcome, and source and storage are released (temporary files are removed). With cancel-on-drop turned off, dropping the stream leaves the download running to completion.',
 ['schedules','crash_points','fault_sequences'],
 'cancellation at any point: while prefetching, writing a batch, waiting for space, for the network, for a seek or reconnect request, or for the finish hook',
 'Tests cancel at one or two fixed moments; a cancellation that is overlooked needs it to arrive while the task is inside a particular await.',
 ['source/mod.rs','lib.rs'],
 [('download is raced against the token','source/mod.rs'),('Drop for StreamDownload','lib.rs')],
 (),['StreamDownload::cancel_download','StreamDownload::cancellation_token','drop'],HOOK),
p('C09','wait_for_completion resolves exactly when the download is over',
 'Waiting for completion resolves for every waiter once the download finished, failed, was cancelled or panicked, and never before the finish hook ran to its end. The finish hook runs exactly once, also if the task is torn down early.',
 ['schedules','crash_points','fault_sequences'],
 'all orders of waiters, completion, cancellation, panics and shutdown',
 'Tests wait once per scenario on one schedule.',
 ['lib.rs','source/mod.rs'],
 [('DownloadTask / completion signal','source/mod.rs'),('StreamHandle','lib.rs')],
 (),['StreamHandle::wait_for_completion','SourceStream::on_finish'],HOOK),
p('C10','A stalled connection is replaced and the download continues where it stopped',
 'If no data arrives for the retry timeout, a reconnect is attempted at exactly the position reached so far, not earlier and not more often than once per timeout, and an attempt that hangs or fails is followed by another; if everything has arrived already, the download ends instead. Nothing is lost, duplicated or misplaced by a reconnect, and the reconnect callback runs once per successful one.',
 ['schedules','fault_sequences'],
 'all positions and lengths of stalls (below, at and above the timeout), and all sequences of hanging, failing, slow and successful reconnects',
 'Tests stall once at a fixed place with real timers.',
 ['source/mod.rs','http/mod.rs'],
 [('timeout around the next chunk, handle_reconnect','source/mod.rs'),('HttpStream::reconnect','http/mod.rs')],
 (),['SourceStream::reconnect','Settings::on_reconnect'],HOOK),
p('C11','Chunk errors and truncated transfers do not corrupt or end the download',
 'Errors and empty chunks in the middle of the transfer are skipped, and a connection that ends early is continued with the missing part if the source can seek and the length is known, however often that happens. The content delivered afterwards is still complete and correct.',
 ['fault_sequences','schedules'],
 'all positions, kinds and repetitions of chunk errors, empty chunks and early disconnects, during prefetch and after',
 'Tests send at most a few errors at fixed positions.',
 ['source/mod.rs'],
 [('handle_bytes skips errors','source/mod.rs'),('finish_or_find_next_gap','source/mod.rs')],
 (),['Read::read'],HOOK),
p('C12','A completed download with unbounded storage has cached the whole resource',
 'Whatever parts a client jumped over, once the download of a seekable resource of known length completes normally, every byte of it was stored exactly as in the resource, and flushed, before success is reported. The missing parts are requested without waiting for the reader, and storage that does not return missing parts does not lead to endless requests.',
 ['schedules','histories','fault_sequences'],
 'all seek patterns and their timing relative to the download, with disconnects and stalls',
 'Tests check a few seek patterns; a gap that is missed needs a seek that lands between two bookkeeping steps.',
 ['source/mod.rs','source/handle.rs'],
 [('gap search over downloaded ranges','source/mod.rs')],
 [('downloaded','ranges in the storage','source/handle.rs')],['StorageProvider writer'],HOOK),
p('C13','HTTP range requests are exact and any server answer is handled',
 'Range requests name exactly the bytes that are needed (inclusive end, never empty or beyond the resource), and the first request is a plain one. Content stays correct if the server ignores ranges, does not support them, or answers with an error status, which is reported and never stored as content.',
 ['inputs','fault_sequences','schedules','configurations'],
 'all combinations of Accept-Ranges, Content-Length, Content-Type and status codes on the initial, seek and reconnect requests, through a custom client and through reqwest with middleware',
 'The tests use one well behaved server.',
 ['http/mod.rs','http/reqwest_client.rs','http/reqwest_middleware_client.rs'],
 [('HttpStream::seek_range / reconnect','http/mod.rs'),('format_range_header_bytes','http/mod.rs')],
 (),['requests on the wire','HttpStream::content_type','StreamDownload::content_length'],HOOK),
p('C14','Sources that cannot seek are never asked to and still serve every position',
 'If the source does not support seeking, no seek request is ever sent; a seek to a position ahead waits until the download got there, and one behind is served from storage. This holds for async-read sources, whose errors and end are handled like those of any other.',
 ['schedules','inputs','histories'],
 'all seek and read sequences on non-seekable sources of known and unknown length, with unbounded and bounded storage',
 'Tests use a few scripted seeks.',
 ['async_read.rs','source/mod.rs','source/handle.rs'],
 [('supports_seek checks','source/mod.rs'),('AsyncReadStream','async_read.rs')],
 (),['SourceStream::seek_range','Seek::seek'],HOOK),
p('C15','Child processes are started as described, reaped, and their failure reported',
 'A process stream runs exactly the described pipeline (programs, arguments, each command reading the output of the one before it) and delivers the standard output of the last command. A command that can not be started is reported; if the last command fails or the download fails, what the commands wrote to their standard error until then is logged, whatever its encoding. When the stream is cancelled, fails or is dropped at any point, every command is killed and reaped; when it ends normally the last command is waited for and the others are reaped when they exit. Temporary error logs are always removed.',
 ['schedules','crash_points','fault_sequences','inputs'],
 'all pipelines, exit codes, output sizes, and points of cancellation or failure relative to child output and exit',
 'Tests run a few real commands to completion; zombies and leaks need a cancellation at a particular moment.',
 ['process/mod.rs','process/command_builder.rs','process/ffmpeg.rs','process/yt_dlp.rs'],
 [('ProcessStream::on_finish','process/mod.rs'),('SpawnedCommand','process/mod.rs')],
 (),['child processes','SourceStream::on_finish','Read::read'],'cfg stream_download_sim: process types are replaced by simulated ones'),
p('C16','Progress reports describe exactly what was downloaded',
 'Each progress report names the position just reached and a current chunk that contains it and covers only stored bytes; the reported chunk sizes add up to what was stored. Prefetching is reported until its target is reached and downloading afterwards, completion exactly once, last, and only if the download completed.',
 ['schedules','histories','fault_sequences'],
 'all chunkings, prefetch targets, seeks, errors, cancellations and partial writes',
 'Tests look at the reports of a few orderly downloads.',
 ['source/mod.rs'],
 [('report_prefetch_progress / report_downloading_progress / report_download_complete','source/mod.rs')],
 (),['Settings::on_progress'],HOOK),
p('C17','Nothing is handed out before the prefetch target, and prefetching always ends',
 'Until the configured number of bytes is stored, or the resource ended or was moved by a seek, the first read does not return. As soon as that is so, it does, also if the resource is shorter than the target, the buffer smaller, or the source silent afterwards. A seek while prefetching ends it and is served right away; a later seek that makes the download continue elsewhere prefetches the same amount again from there, and the progress callback reports that phase.',
 ['schedules','inputs','configurations'],
 'all prefetch targets relative to resource, chunk and buffer sizes, with and without seeks during prefetch',
 'Tests use a few targets.',
 ['source/mod.rs','lib.rs'],
 [('handle_prefetch, finish_prefetch','source/mod.rs')],
 [('prefetch_complete','the target was reached','source/mod.rs')],['Read::read'],HOOK),
p('C18','Every storage provider behaves like a file shared by a reader and a writer',
 'For every interleaving of one writer and one reader, memory and temporary-file storage return the latest bytes written at each position, positions move by exactly what was transferred, seeks before the start are rejected, and bounded storage accepts exactly what fits. Temporary files are created where, and with the name, the provider was told to. Adaptive storage uses bounded storage if the length is unknown, the fixed one if the resource fits into its buffer, and the variable one otherwise.',
 ['schedules','inputs','histories'],
 'all interleavings and sequences of reads, writes and seeks of both handles, capacities, lengths, and short or failing operations',
 'Tests use the providers from one thread in a few scripted sequences.',
 ['storage/memory.rs','storage/temp.rs','storage/bounded.rs','storage/adaptive.rs','storage/mod.rs'],
 [('MemoryStorageProvider','storage/memory.rs'),('TempStorageProvider','storage/temp.rs'),('BoundedStorageProvider','storage/bounded.rs'),('AdaptiveStorageProvider','storage/adaptive.rs')],
 (),['StorageProvider reader and writer'],HOOK),
p('C19','The registry picks the matching entry with the lowest priority number',
 'The registry hands an input to the entry with the lowest priority number among those with a matching rule, with the prefix of the rule split off, and returns nothing if none matches.',
 ['inputs'],
 'all rule lists and inputs',
 'Tests use a few rules.',
 ['registry/mod.rs'],
 [('Registry::find_match','registry/mod.rs')],
 (),['Registry::find_match']),
p('C20','OpenDAL streams deliver the object exactly, from any position',
 'A stream over an OpenDAL operator delivers exactly the bytes of the object, in chunks of the configured size, continues at exactly the requested offset after a seek or reconnect, and reports content length, content type and initialisation errors of the service.',
 ['inputs','schedules','fault_sequences','configurations'],
 'all object sizes, chunk sizes, seek and read sequences, service errors and stalls',
 'Tests read a few files through the local file service.',
 ['crates/stream-download-opendal/src/lib.rs'],
 [('OpendalStream','crates/stream-download-opendal/src/lib.rs')],
 (),['Read::read','reads that reach the service'],HOOK),
p('C21','Writes are split into batches with a chance for other tasks in between',
 'No single write to the storage is larger than the configured batch size, and between two such writes other tasks of the runtime get to run, so that one large chunk never monopolises the executor. Splitting does not change the content.',
 ['inputs','configurations','schedules'],
 'all chunk and batch sizes, storages that accept only part of a write',
 'Tests use one batch size.',
 ['source/mod.rs'],
 [('write_batched','source/mod.rs')],
 (),['StorageProvider writer'],HOOK),
p('C22','What is already stored is not requested again',
 'Reading and seeking inside the part of the resource that is already stored causes no request. With a well behaved network every byte is requested from the server only if it is not stored yet, apart from data that was already on its way when a seek was made.',
 ['histories','schedules','inputs'],
 'all seek and read patterns over partially downloaded resources and their timing',
 'Tests count requests for one or two patterns.',
 ['source/mod.rs','source/handle.rs','lib.rs'],
 [('downloaded ranges are consulted before a request','source/mod.rs'),('seek returns early if downloaded','lib.rs')],
 (),['SourceStream::seek_range','requests on the wire'],HOOK),
p('C23','Streams on one runtime do not affect each other',
 'Several streams that share a runtime and process each deliver their own content, fail, stall, get cancelled and complete on their own; no stream observes bytes, failure or cancellation of another, and none starves because another is stalled, full or slow.',
 ['schedules','fault_sequences','configurations'],
 'several concurrent streams with different transports, storages, faults and cancellations under one scheduler',
 'The tests run one stream at a time per runtime.',
 ['lib.rs','source/mod.rs','source/handle.rs'],
 [('per stream handle, token and task','lib.rs')],
 (),['Read::read','StreamHandle::wait_for_completion'],HOOK),
p('C24','A stream that cannot be opened says why and leaves nothing behind',
 'If the source or the storage cannot be created, opening the stream returns the matching kind of error with the message of the cause (for HTTP, the status and the response body as far as it can be read), and source and storage are released. If both can, the stream opens and reports what the source announced.',
 ['fault_sequences','inputs','schedules'],
 'all failures of connection, status, storage creation and their delays, through all transports',
 'Tests check one or two failures.',
 ['lib.rs','http/mod.rs','http/reqwest_client.rs','source/mod.rs'],
 [('StreamDownload::from_create_stream','lib.rs'),('DecodeError','source/mod.rs')],
 (),['StreamDownload::new','StreamInitializationError'],HOOK),
]
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        for fn in x['anchors']['files']:
            assert os.path.exists('/repo/'+fn),fn
        f.write(json.dumps(x)+'\n')
