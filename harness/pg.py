"""A private PostgreSQL server in the check's scratch directory."""
import os
import signal
import subprocess
import time

import psycopg2

from .core import MachineryError


class Postgres:
    def __init__(self, ctx):
        self.base = ctx.subdir("pg")
        self.data = self.base / "data"
        self.sock = self.base / "sock"
        self.sock.mkdir(mode=0o777)
        os.chmod(self.sock, 0o777)
        env = dict(os.environ)
        r = subprocess.run(["initdb", "-D", str(self.data), "--auth-local=trust", "--auth-host=reject",
                            "--no-sync", "-E", "UTF8", "--locale=C.UTF-8"],
                           capture_output=True, text=True, env=env)
        if r.returncode:
            raise MachineryError("initdb failed: " + r.stderr[-2000:])
        self.log = open(self.base / "log", "wb")
        self.proc = subprocess.Popen(
            ["postgres", "-D", str(self.data), "-k", str(self.sock), "-F", "-c", "listen_addresses=",
             "-c", "port=5999", "-c", "full_page_writes=off", "-c", "synchronous_commit=off",
             "-c", "timezone=UTC", "-c", "max_connections=60", "-c", "autovacuum=off"],
            stdout=self.log, stderr=subprocess.STDOUT, env=env)
        ctx.closers.append(self.stop)
        self.kw = dict(host=str(self.sock), port=5999, user="root", database="postgres")
        for _ in range(200):
            try:
                c = psycopg2.connect(**self.kw)
                break
            except psycopg2.OperationalError:
                time.sleep(0.1)
        else:
            raise MachineryError("postgres did not start")
        c.autocommit = True
        c.cursor().execute("CREATE DATABASE test")
        c.close()
        self.kw["database"] = "test"

    def connect(self, name="admin"):
        c = psycopg2.connect(application_name=name, **self.kw)
        c.autocommit = True
        return c

    def newdb(self, name):
        c = psycopg2.connect(**dict(self.kw, database="postgres"))
        c.autocommit = True
        c.cursor().execute(f"CREATE DATABASE {name}")
        c.close()

    def stop(self):
        if self.proc and self.proc.poll() is None:
            self.proc.send_signal(signal.SIGINT)
            try:
                self.proc.wait(10)
            except subprocess.TimeoutExpired:
                self.proc.kill()
                self.proc.wait()
        self.proc = None
