"""Reference definitions for bin.kill_job_submitter."""
import re
import subprocess

ps_out = subprocess.Popen(['ps', '-ef'], stdout=subprocess.PIPE).communicate()[0].decode('utf-8')
out_lines = [line.strip() for line in ps_out.split('\n')[1:]]
job_submitter_regex = re.compile('^[a-zA-Z]+\\s+(?P<pid>[0-9]+).*(\\s|/)(job_submitter|orchestrate_run)')
pid = None

constants("bin.kill_job_submitter", 'ps_out', 'out_lines', 'job_submitter_regex', 'pid')


@of("bin.kill_job_submitter.__main__", ret=False)
def r_main():
    ps_out = subprocess.Popen(['ps', '-ef'], stdout=subprocess.PIPE).communicate()[0].decode('utf-8')
    out_lines = [line.strip() for line in ps_out.split('\n')[1:]]
    job_submitter_regex = re.compile('^[a-zA-Z]+\\s+(?P<pid>[0-9]+).*(\\s|/)(job_submitter|orchestrate_run)')
    pid = None
    for line in out_lines:
        match = job_submitter_regex.match(line)
        if match:
            pid = match.group('pid')
            subprocess.call(['kill', '-9', f'{pid}'])
    if pid is None:
        pass

