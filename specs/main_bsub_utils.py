"""Reference definitions for seyfert.main.bsub_utils."""
from pathlib import Path
from seyfert.main.bsub_utils import ExitedBatchJobError
from seyfert.main.bsub_utils import count_down
from seyfert.utils import formatters as fm
import datetime
import logging
import pandas as pd
import re
import subprocess as sp
import time

logger = logging.getLogger(__name__)
bsub_stdout_regex = re.compile('Job <([0-9]+)> is submitted to')

constants("seyfert.main.bsub_utils", 'bsub_stdout_regex')


@shape("seyfert.main.bsub_utils.ExitedBatchJobError")
class s_ExitedBatchJobError(Exception):
    pass


@shape("seyfert.main.bsub_utils.BsubInterface")
class s_BsubInterface:
    _bjobs_out_regex_dict = {'JOBID': '([0-9]+)', 'USER': '([a-z]+)', 'STAT': '([A-Z]+)', 'QUEUE': '([a-z]+)', 'FROM_HOST': '([a-z0-9\\.]+)', 'EXEC_HOST': '([a-z0-9\\.\\*]+)', 'JOB_NAME': '(.*\\-)', 'SUBMIT_TIME': '([a-zA-Z]{3}\\s+[0-9]+\\s+[0-9]+:[0-9]+)'}
    _bsub_out_regex = re.compile('Job <([0-9]+)> is submitted to')
    _basic_bjobs_out_regex = re.compile('([0-9]+)\\s+([a-z]+)\\s+([A-Z]+)', re.MULTILINE)


@of("seyfert.main.bsub_utils.count_down", ret=False)
def r_count_down(t):
    while t:
        time.sleep(1)
        t -= 1


@of("seyfert.main.bsub_utils.BsubInterface.__init__", ret=False)
def r_BsubInterface_init(self):
    self.regex_bjobs_out = re.compile('\\s+'.join(self._bjobs_out_regex_dict.values()), re.MULTILINE)
    self.bsub_opts = {'-P': 'c7', '-q': 'medium', '-M': 2048}


@of("seyfert.main.bsub_utils.BsubInterface.req_memory_MB", kind='property')
def r_BsubInterface_req_memory_MB(self):
    return self.bsub_opts['-M']


@of("seyfert.main.bsub_utils.BsubInterface.decodeIfNotString", kind='static')
def r_BsubInterface_decodeIfNotString(s):
    if not isinstance(s, str):
        s = s.decode('utf-8')
    return s


@of("seyfert.main.bsub_utils.BsubInterface.buildResourceSpecString")
def r_BsubInterface_buildResourceSpecString(self):
    return f'-R"select[avx && mem>{self.req_memory_MB}] rusage[mem={self.req_memory_MB}]"'


@of("seyfert.main.bsub_utils.BsubInterface.setOptions", ret=False)
def r_BsubInterface_setOptions(self, queue, n_cores, memory_MB):
    n_cores = str(n_cores)
    memory_MB = str(memory_MB)
    self.bsub_opts.update({'-q': queue, '-n': n_cores, '-M': memory_MB})


@of("seyfert.main.bsub_utils.BsubInterface.parseBjobsOutput")
def r_BsubInterface_parseBjobsOutput(self, out, basic_regex=True):
    out = self.decodeIfNotString(out)
    if basic_regex:
        rows = self._basic_bjobs_out_regex.findall(out)
        columns = list(self._bjobs_out_regex_dict.keys())[0:3]
    else:
        rows = self.regex_bjobs_out.findall(out)
        columns = list(self._bjobs_out_regex_dict.keys())
    return pd.DataFrame(rows, columns=columns)


@of("seyfert.main.bsub_utils.BsubInterface.buildBsubOptsString")
def r_BsubInterface_buildBsubOptsString(self, err, out):
    cli_args = {}
    cli_args.update(self.bsub_opts)
    cli_args.update({'-e': err, '-o': out})
    R_spec = self.buildResourceSpecString()
    opts_str = ' '.join([f'{key} {value}' for key, value in cli_args.items()]) + f' {R_spec}'
    return opts_str


@of("seyfert.main.bsub_utils.BsubInterface.buildBsubCommand")
def r_BsubInterface_buildBsubCommand(self, cmd, err, out):
    opts_str = self.buildBsubOptsString(err=err, out=out)
    return f'bsub {opts_str} {cmd}'


@of("seyfert.main.bsub_utils.BsubInterface.submitJob")
def r_BsubInterface_submitJob(self, cmd_to_execute, add_datetime_to_logs=True, logs_path='.', test=False, logs_start_str='job', silent=False, separate_err_out_dirs=False):
    out_name = f'out_{logs_start_str}'
    err_name = f'err_{logs_start_str}'
    if add_datetime_to_logs:
        now = fm.datetime_str_format(datetime.datetime.now())
        out_name += f'_{now}.out'
        err_name += f'_{now}.err'
    if separate_err_out_dirs:
        out_path = Path(logs_path) / 'out' / out_name
        err_path = Path(logs_path) / 'err' / err_name
    else:
        out_path = Path(logs_path) / out_name
        err_path = Path(logs_path) / err_name
    out_path.parent.mkdir(exist_ok=True, parents=True)
    err_path.parent.mkdir(exist_ok=True, parents=True)
    bsub_cmd_string = self.buildBsubCommand(cmd_to_execute, err=err_path, out=out_path)
    if not silent:
        pass
    if not test:
        proc = sp.run(bsub_cmd_string, shell=True, stdout=sp.PIPE, stderr=sp.PIPE)
        if proc.stdout and (not silent):
            pass
        job_id = self.getJobID(proc.stdout)
    else:
        job_id = None
    return job_id


@of("seyfert.main.bsub_utils.BsubInterface.getJobID")
def r_BsubInterface_getJobID(self, bsub_std_out):
    bsub_std_out = self.decodeIfNotString(bsub_std_out)
    return self._bsub_out_regex.search(bsub_std_out).groups()[0]


@of("seyfert.main.bsub_utils.BsubInterface.getBjobsTable")
def r_BsubInterface_getBjobsTable(self, job_ids=None, bjobs_opts='-w', basic_regex=True):
    if job_ids is not None:
        bjobs_cmd = sp.run(f'bjobs {bjobs_opts} {' '.join([str(job_id) for job_id in job_ids])}', shell=True, stdout=sp.PIPE)
    else:
        bjobs_cmd = sp.run(f'bjobs {bjobs_opts}', shell=True, stdout=sp.PIPE)
    return self.parseBjobsOutput(bjobs_cmd.stdout, basic_regex=basic_regex)


@of("seyfert.main.bsub_utils.BsubInterface.waitForJobsToComplete", ret=False)
def r_BsubInterface_waitForJobsToComplete(self, job_ids, bjobs_opts='-w', check_time_resolution_secs=30.0, max_time_wait_h=3, wait_overhead_secs=5):
    time.sleep(wait_overhead_secs)
    check_counter = 0
    num_checks_lim_log = 10
    max_time_wait_s = max_time_wait_h * 3600
    t0 = time.time()
    while True:
        if check_counter < num_checks_lim_log:
            pass
        count_down(check_time_resolution_secs)
        if check_counter < num_checks_lim_log:
            pass
        status_df = self.getBjobsTable(job_ids, bjobs_opts=bjobs_opts)
        if all(status_df['STAT'] == 'DONE'):
            break
        else:
            stat_counts = status_df['STAT'].value_counts()
            if check_counter < num_checks_lim_log:
                stat_counts_str = ', '.join((f'{status} {num_status}' for status, num_status in sorted(stat_counts.items())))
            if 'EXIT' in stat_counts and stat_counts['EXIT'] > 0:
                raise ExitedBatchJobError()
        check_counter += 1
        tf = time.time()
        if check_counter < num_checks_lim_log:
            pass
        if tf - t0 > max_time_wait_s:
            break


@of("seyfert.main.bsub_utils.BsubInterface.getResourceUsageTable")
def r_BsubInterface_getResourceUsageTable(self, out_files_dir):
    outname_regex = re.compile('^out_(.*)_20[0-9]{2}')
    regexps = {'cpu_time_s': re.compile('CPU time\\s*:\\s+([0-9\\.]+)'), 'max_mem_MB': re.compile('Max Memory\\s*:\\s+([0-9\\.]+)'), 'avg_mem_MB': re.compile('Average Memory\\s*:\\s+([0-9\\.]+)'), 'req_mem_MB': re.compile('Total Requested Memory\\s*:\\s+([0-9\\.]+)'), 'delta_mem_MB': re.compile('Delta Memory\\s*:\\s+([0-9\\.]+)')}
    rows = []
    for file in out_files_dir.glob('*.out'):
        text = file.read_text()
        fisher = outname_regex.match(file.stem).groups()[0]
        start_time, end_time = self.extractStartEndTimesFromOutText(text)
        row = {'fisher': fisher, 'start_time': start_time, 'end_time': end_time, 'duration_s': (end_time - start_time).total_seconds()}
        row.update({key: float(pattern.search(text).groups()[0]) for key, pattern in regexps.items()})
        rows.append(row)
    df = pd.DataFrame(rows)
    df['duration_h_m_s_ms'] = df['duration_s'].apply(fm.string_time_format)
    return df


@of("seyfert.main.bsub_utils.BsubInterface.extractStartEndTimesFromOutText")
def r_BsubInterface_extractStartEndTimesFromOutText(self, text):
    start_time = self.extractDateTimeFromOut(text, prefix='Started at')
    end_time = self.extractDateTimeFromOut(text, prefix='Results reported on')
    return (start_time, end_time)


@of("seyfert.main.bsub_utils.BsubInterface.extractDateTimeFromOut", kind='static')
def r_BsubInterface_extractDateTimeFromOut(text, prefix):
    date_pattern = '[A-Za-z]+ ([A-Za-z]{3})\\s+([0-9]+)\\s+([0-9]{2}:[0-9]{2}:[0-9]{2})\\s+([0-9]{4})'
    date_time_regex = re.compile('%s %s' % (prefix, date_pattern))
    month, day, h_m_s, year = date_time_regex.search(text).groups()
    return datetime.datetime.strptime(f'{year} {month} {day.zfill(2)} {h_m_s}', '%Y %b %d %H:%M:%S')

