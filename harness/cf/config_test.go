// Package cf watches how the three services read their settings: random
// mixtures of command line flags and environment variables, against a table of
// what is documented.
package cf

import (
	"fmt"
	"math/rand/v2"
	"os"
	"strconv"
	"testing"
	"time"

	"github.com/DanLavine/willow/internal/config"
	"github.com/DanLavine/willow/internal/verif/vh"
)

// A setting is one documented knob of a service.
type setting struct {
	flag, env, def string
	kind           string // text, port, level, bool, duration, storage
}

type service struct {
	name     string
	settings []setting
	read     func(args []string) (map[string]string, error)
}

func b(v *bool) string { return strconv.FormatBool(*v) }

var services = []service{
	{
		name: "locker",
		settings: []setting{
			{"log-level", "LOCKER_LOG_LEVEL", "info", "level"},
			{"port", "LOCKER_PORT", "8083", "port"},
			{"server-ca", "LOCKER_SERVER_CA", "", "text"},
			{"server-key", "LOCKER_SERVER_KEY", "", "text"},
			{"server-crt", "LOCKER_SERVER_CRT", "", "text"},
			{"insecure-http", "LOCKER_INSECURE_HTTP", "false", "bool"},
			{"lock-default-timeout", "LOCKER_LOCK_DEFAULT_TIMEOUT", "5s", "duration"},
		},
		read: func(args []string) (map[string]string, error) {
			c, err := config.Locker(args)
			if err != nil {
				return nil, err
			}
			return map[string]string{
				"log-level": c.LogLevel(), "port": *c.Port, "server-ca": *c.ServerCA, "server-key": *c.ServerKey,
				"server-crt": *c.ServerCRT, "insecure-http": b(c.InsecureHttp), "lock-default-timeout": c.LockDefaultTimeout.String(),
			}, nil
		},
	},
	{
		name: "limiter",
		settings: []setting{
			{"log-level", "LIMITER_LOG_LEVEL", "info", "level"},
			{"port", "LIMITER_PORT", "8082", "port"},
			{"server-ca", "LIMITER_CA", "", "text"},
			{"server-key", "LIMITER_SERVER_KEY", "", "text"},
			{"server-crt", "LIMITER_SERVER_CRT", "", "text"},
			{"insecure-http", "LIMITER_INSECURE_HTTP", "false", "bool"},
			{"locker-url", "LIMITER_LOCKER_URL", "", "text"},
			{"locker-client-ca", "LIMITER_LOCKER_CLIENT_CA", "", "text"},
			{"locker-client-key", "LIMITER_LOCKER_CLIENT_KEY", "", "text"},
			{"locker-client-crt", "LIMITER_LOCKER_CLIENT_CRT", "", "text"},
		},
		read: func(args []string) (map[string]string, error) {
			c, err := config.Limiter(args)
			if err != nil {
				return nil, err
			}
			return map[string]string{
				"log-level": c.LogLevel(), "port": *c.LimiterPort, "server-ca": *c.ServerCA, "server-key": *c.ServerKey,
				"server-crt": *c.ServerCRT, "insecure-http": b(c.InsecureHttp), "locker-url": *c.LockerURL,
				"locker-client-ca": *c.LockerClientCA, "locker-client-key": *c.LockerClientKey, "locker-client-crt": *c.LockerClientCRT,
			}, nil
		},
	},
	{
		name: "willow",
		settings: []setting{
			{"log-level", "LOG_LEVEL", "info", "level"},
			{"port", "WILLOW_PORT", "8080", "port"},
			{"server-ca", "WILLOW_CA", "", "text"},
			{"server-key", "WILLOW_SERVER_KEY", "", "text"},
			{"server-crt", "WILLOW_SERVER_CRT", "", "text"},
			{"insecure-http", "WILLOW_INSECURE_HTTP", "false", "bool"},
			{"limiter-url", "WILLOW_LIMITER_URL", "", "text"},
			{"limiter-client-ca", "WILLOW_LIMITER_CLIENT_CA", "", "text"},
			{"limiter-client-key", "WILLOW_LIMITER_CLIENT_KEY", "", "text"},
			{"limiter-client-crt", "WILLOW_LIMITER_CLIENT_CRT", "", "text"},
			{"storage-type", "STORAGE_TYPE", "memory", "storage"},
		},
		read: func(args []string) (map[string]string, error) {
			c, err := config.Willow(args)
			if err != nil {
				return nil, err
			}
			return map[string]string{
				"log-level": c.LogLevel(), "port": *c.Port, "server-ca": *c.ServerCA, "server-key": *c.ServerKey,
				"server-crt": *c.ServerCRT, "insecure-http": b(c.InsecureHttp), "limiter-url": *c.LimiterURL,
				"limiter-client-ca": *c.LimiterClientCA, "limiter-client-key": *c.LimiterClientKey,
				"limiter-client-crt": *c.LimiterClientCRT, "storage-type": *c.StorageConfig.Type,
			}, nil
		},
	},
}

func pick(g *rand.Rand, of ...string) string { return of[g.IntN(len(of))] }

// value makes one value for a setting; flags and environment variables take
// the same text, but a flag that its own parser cannot read ends the process,
// so flags only ever get readable booleans and durations.
func value(g *rand.Rand, service string, s setting, env bool, wrong bool) string {
	switch s.kind {
	case "level":
		if wrong {
			return pick(g, "INFO", "trace", "warn", "debug ", "error")
		}
		return pick(g, "debug", "info")
	case "port":
		if wrong && service != "willow" {
			return pick(g, "65536", "70000", "http", "8o80", "80:80", "4294967297")
		}
		return strconv.Itoa(1 + g.IntN(65535))
	case "bool":
		return pick(g, "true", "true", "false")
	case "duration":
		if wrong {
			if env {
				return pick(g, "-1s", "0s", "soon", "5", "1 s")
			}
			return pick(g, "-1s", "0s")
		}
		return (time.Duration(1+g.IntN(100000)) * time.Millisecond).String()
	case "storage":
		if wrong {
			return pick(g, "invalid", "Memory", "sqlite")
		}
		return "memory"
	}
	return pick(g, "/etc/ssl/a b.pem", "a", "=x", "/tmp/ключ", "http://locker:8083", "-", "$HOME/x", "true") + strconv.Itoa(g.IntN(1000))
}

func TestSettings(t *testing.T) {
	r := vh.Start(t, "every documented setting is the environment variable if set, else the flag, else the default; invalid mixtures are refused")
	defer r.Finish()
	for _, s := range services {
		for _, k := range s.settings {
			os.Unsetenv(k.env)
		}
	}
	n := vh.N(6000, 300000)
	for i := 0; i < n && !r.Bad(); i++ {
		r.Step()
		one(r, vh.Rand("settings", i))
	}
}

func one(r *vh.R, g *rand.Rand) {
	sv := services[g.IntN(len(services))]
	want := map[string]string{}
	var args []string
	envs := map[string]string{}
	// most mixtures are made valid, so that the values are looked at
	secure := g.IntN(2) == 0
	sane := g.IntN(5) > 0
	density := g.IntN(4)
	order := g.Perm(len(sv.settings))
	shape := ""
	for _, at := range order {
		s := sv.settings[at]
		how := 0 // 1 flag, 2 env, 3 both
		if g.IntN(4) <= density {
			how = g.IntN(4)
		}
		wrong := !sane && g.IntN(6) == 0
		onFlag, onEnv := value(g, sv.name, s, false, wrong && g.IntN(2) == 0), value(g, sv.name, s, true, wrong)
		if sane {
			switch s.flag {
			case "insecure-http":
				// the setting that counts decides, the other one may say the opposite
				if how == 0 && !secure {
					how = 1 + g.IntN(3)
				}
				final := strconv.FormatBool(!secure)
				if how == 1 {
					onFlag = final
				} else {
					onEnv = final
				}
			case "server-ca":
				if !secure {
					how = 0
				}
			case "server-key", "server-crt":
				if !secure {
					how = 0
				} else if how == 0 {
					how = 1 + g.IntN(3)
				}
			}
		}
		want[s.flag] = s.def
		if how&1 != 0 {
			dashes := pick(g, "-", "--")
			if s.kind == "bool" {
				if onFlag == "true" && g.IntN(2) == 0 {
					args = append(args, dashes+s.flag)
				} else {
					args = append(args, dashes+s.flag+"="+onFlag)
				}
			} else if g.IntN(2) == 0 {
				args = append(args, dashes+s.flag+"="+onFlag)
			} else {
				args = append(args, dashes+s.flag, onFlag)
			}
			want[s.flag] = onFlag
		}
		if how&2 != 0 {
			envs[s.env] = onEnv
			want[s.flag] = onEnv
		}
		shape += fmt.Sprint(at, how)
	}

	why := invalid(sv, want)
	for k, v := range envs {
		os.Setenv(k, v)
	}
	given := append([]string(nil), args...)
	var got map[string]string
	var err error
	detail := vh.JSON(map[string]any{"service": sv.name, "args": given, "env": envs, "want": want, "refuse": why})
	r.Guard("reading the settings of "+sv.name, detail, func() { got, err = sv.read(args) })
	for k := range envs {
		os.Unsetenv(k)
	}
	r.Eval(1)
	r.Distinct(sv.name + shape)
	if why != "" {
		r.Stat("refused", 1)
		if err == nil {
			r.Violation("accepted", detail, "%s started with invalid settings: %s", sv.name, why)
		}
		return
	}
	if err != nil {
		r.Violation("refused", detail, "%s refused valid settings: %v", sv.name, err)
		return
	}
	r.Stat("accepted", 1)
	for _, s := range sv.settings {
		is, should := got[s.flag], want[s.flag]
		if s.kind == "duration" {
			d, _ := time.ParseDuration(should)
			should = d.String()
		}
		if is != should {
			r.Violation("value:"+s.flag, detail, "%s: setting %s is %q, should be %q", sv.name, s.flag, is, should)
		}
	}
}

// invalid says why a service should refuse these settings.
func invalid(sv service, v map[string]string) string {
	if l := v["log-level"]; l != "debug" && l != "info" {
		return "log level " + l
	}
	if sv.name != "willow" {
		if p, err := strconv.Atoi(v["port"]); err != nil || p > 65535 {
			return "port " + v["port"]
		}
	}
	if v["insecure-http"] == "true" {
		if v["server-ca"] != "" || v["server-key"] != "" || v["server-crt"] != "" {
			return "certificates with insecure-http"
		}
	} else if v["server-key"] == "" || v["server-crt"] == "" {
		return "no key or no certificate"
	}
	if d, ok := v["lock-default-timeout"]; ok {
		if t, err := time.ParseDuration(d); err != nil || t <= 0 {
			return "lock timeout " + d
		}
	}
	if s, ok := v["storage-type"]; ok && s != "memory" {
		return "storage " + s
	}
	return ""
}
