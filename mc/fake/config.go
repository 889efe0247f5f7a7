// Package fake holds stand-ins for the environment of the code under test.
package fake

import (
	"time"

	"github.com/hrygo/yaml_config"
	"github.com/spf13/viper"
)

// Config is a configuration held in memory.
type Config struct {
	v    *viper.Viper
	base string
}

var _ yaml_config.YmlConfig = (*Config)(nil)

// NewConfig returns a configuration with the given settings.
func NewConfig(base string, m map[string]any) *Config {
	c := &Config{viper.New(), base}
	for k, v := range m {
		c.v.Set(k, v)
	}
	return c
}

func (c *Config) Set(k string, v any)                { c.v.Set(k, v) }
func (c *Config) ConfigFileChangeListen()            {}
func (c *Config) Clone(string) yaml_config.YmlConfig { return c }
func (c *Config) Get(k string) interface{}           { return c.v.Get(k) }
func (c *Config) GetString(k string) string          { return c.v.GetString(k) }
func (c *Config) GetBool(k string) bool              { return c.v.GetBool(k) }
func (c *Config) GetInt(k string) int                { return c.v.GetInt(k) }
func (c *Config) GetInt32(k string) int32            { return c.v.GetInt32(k) }
func (c *Config) GetInt64(k string) int64            { return c.v.GetInt64(k) }
func (c *Config) GetFloat64(k string) float64        { return c.v.GetFloat64(k) }
func (c *Config) GetDuration(k string) time.Duration { return c.v.GetDuration(k) }
func (c *Config) GetStringSlice(k string) []string   { return c.v.GetStringSlice(k) }
func (c *Config) Viper() *viper.Viper                { return c.v }
func (c *Config) BasePath() string                   { return c.base }
